"""Dielectric constant and Born functions of water."""
from .common import *
from engine.poly import Decimal
import functools
Eq = functools.partial(Eq, tol=1e-8, vtol=1e-7)

META = dict(
    title="Dielectric constant of water: published functions, consistent Born functions",
    statement="At every temperature, pressure and density with its derivatives, the dielectric constant of water is the published function of the selected model (Johnson-Norton 1991 in both implementations, Fernandez 1997, Sverjensky 2014), its reported temperature and pressure derivatives are derivatives of it along the density (exact for Johnson-Norton, symmetric difference quotients of a small step for the others), and the Born functions are Z=-1/eps, Y=dZ/dT, Q=dZ/dP per Pa, X=dY/dT and, where given, U=dQ/dT, N=dQ/dP; density, expansivity and molar properties of the GEMS water model are handed over for the phase asked for in SI units.",
    over=["inputs"], qtext="all temperatures, pressures, densities and density derivatives within the stated ranges; both phases, saturation or not",
    why="Solute properties are built on these functions; a wrong derivative or unit shows only in selected properties, and no stable test evaluates a dielectric model.",
    files=["ThermoFun/ElectroModelsSolvent.cpp", "ThermoFun/Substances/Solvent/Reaktoro/WaterElectroStateJohnsonNorton.cpp", "ThermoFun/Substances/Solvent/WaterJN91reaktoro.cpp", "ThermoFun/Substances/Solvent/WaterElectroFernandez1997.cpp", "ThermoFun/Substances/Solvent/WaterElectroSverjensky2014.cpp", "ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp"],
    mech=[("Johnson-Norton", "waterElectroStateJohnsonNorton; WaterHGKgems::JN91, epsBrn, Born92"), ("difference quotients", "electroPropertiesWaterFernandez1997, electroPropertiesWaterSverjensky2014"), ("conversion", "WaterHGKgems::electroPropertiesWaterJNgems, propertiesWaterHGKgems, thermoPropertiesWaterHGKgems")],
    observe=["WaterJNreaktoro, WaterElectroFernandez1997, WaterElectroSverjensky2014 ::electroPropertiesSolvent", "WaterHGKgems::electroPropertiesWaterJNgems"],
    note="Fernandez 1997 and Sverjensky 2014: the density is an arbitrary function of T and P; U, N and the mixed derivative are not given by them nor by the GEMS implementation and must then be marked undefined. Sverjensky 2014 is a function of the square root of the temperature in C and is decided above 274.2 K.")

DD = lambda s: c(Decimal(s))
A = [None] + [DD(x) for x in "14.70333593 212.8462733 -115.4445173 19.55210915 -83.30347980 32.13240048 -6.694098645 -37.86202045 68.87359646 -27.29401652".split()]
T, P, D = var("T"), var("P"), var("D")
o = out


def jn(T, D):
    t, r = T / DD("298.15"), D / c(1000)
    return c(1) + A[1] / t * r + (A[2] / t + A[3] + A[4] * t) * r ** 2 + (A[5] / t + A[6] * t + A[7] * t * t) * r ** 3 + (A[8] / t ** 2 + A[9] / t + A[10]) * r ** 4


def fern(T, rho):
    N = "0.978224486826 -0.957771379375 0.237511794148 0.714692244396 -0.298217036956 -0.108863472196 0.0949327488264 -0.00980469816509 0.0000165167634970 0.0000937359795772 -0.00000000012317921872 0.00196096504426".split()
    I = [1, 1, 1, 2, 3, 3, 4, 5, 6, 7, 10]
    J = ["0.25", "1", "2.5", "1.5", "1.5", "2.5", "2", "2", "5", "0.5", "10"]
    tc, rc = DD("647.096"), c(322)
    g = c(1) + DD(N[11]) * (rho / rc) / (T / c(228) - 1) ** F("1.2")
    for n, i, j in zip(N, I, J): g = g + DD(n) * (rho / rc) ** i * (tc / T) ** F(j)
    M, e0 = Decimal("0.018015268"), Decimal("8.854187817e-12")
    a = c(Decimal("6.0221367e23") * Decimal("6.138e-30") ** 2) * rho * g / c(M * e0 * Decimal("1.380658e-23")) / T
    b = c(Decimal("6.0221367e23") * Decimal("1.636e-40")) * rho / c(3 * M * e0)
    return (c(1) + a + c(5) * b + (c(9) + c(2) * a + c(18) * b + a * a + c(10) * a * b + c(9) * b * b) ** F(1, 2)) / 4 / (c(1) - b)


def sver(T, rho):
    t, r = T - DD("273.15"), rho / c(1000)
    q = t ** F(1, 2)
    return exp(DD("-8.016651e-05") * t + DD("-6.871618e-02") * q + DD("4.747973")) * exp((DD("-1.576377e-03") * t + DD("6.810288e-02") * q + DD("7.548755e-01")) * log(r))


def born(full, alongP=None):
    e, Q = o("eps"), o("epsP") / (o("eps") * o("eps"))
    Eq = functools.partial(globals()["Eq"], cut=("eps", "epsT", "epsP", "epsTT", "epsTP", "epsPP") if full else ("eps", "epsT", "epsP", "epsTT"))
    r = [Eq("Z", o("Z"), c(-1) / e), Eq("Y", o("Y"), o("epsT") / (e * e)), Eq("Q", o("Q"), Q), Eq("X", o("X"), o("epsTT") / (e * e) - c(2) * o("epsT") * o("epsT") / (e * e * e))]
    if full: r += [Eq("U", o("U"), o("epsTP") / (e * e) - c(2) * o("epsT") * o("epsP") / (e * e * e)), Eq("N", o("N"), o("epsPP") / (e * e) - c(2) * o("epsP") * o("epsP") / (e * e * e))]
    return r


def base(p):
    obs = [returns(p)]
    if p.status != "ok": return obs
    return obs + [Fact("no exception", p.ints["raised"] == 0, "exception", lambda n: n.ints.get("raised") != 0)]


def ob_jn(p, ctx, ch):
    obs = base(p)
    if p.status != "ok" or p.ints["raised"]: return obs
    e = jn(T, D)
    return obs + born(True) + [Fact("all properties defined", p.ints["undef"] + p.ints["undefN"] + p.ints["undefPP"] == 0, "undefined"), Eq("eps", o("eps"), e), Eq("epsT", o("epsT"), d(e, "T")), Eq("epsP", o("epsP"), d(e, "P")), Eq("epsTT", o("epsTT"), d(d(e, "T"), "T")), Eq("epsTP", o("epsTP"), d(d(e, "T"), "P")), Eq("epsPP", o("epsPP"), d(d(e, "P"), "P"))]


def ob_gems(p, ctx, ch):
    obs = base(p)
    if p.status != "ok" or p.ints["raised"] or not p.ints["used"]: return obs
    e = jn(T, D)
    cal, J = DD("4.184"), lambda n: o(n)
    obs += born(False) + [Fact("not calculated properties are undefined", p.ints["undef"] == 0 and p.ints["undefN"] == 3, "%d %d" % (p.ints["undef"], p.ints["undefN"])), Eq("eps", o("eps"), e), Eq("epsT", o("epsT"), d(e, "T")), Eq("epsP", o("epsP"), d(e, "P")), Eq("epsTT", o("epsTT"), d(d(e, "T"), "T")),
            Eq("density", o("density"), D), Eq("densityT", o("densityT"), d(D, "T")), Eq("densityP", o("densityP"), d(D, "P")), Eq("densityTT", o("densityTT"), d(d(D, "T"), "T")), Eq("Alpha", o("Alpha"), var("al")), Eq("Beta", o("Beta"), var("be") / c(100000)), Eq("dAldT", o("dAldT"), var("da")), Eq("pressure", o("pressure"), P * c(100000)),
            Eq("V", o("V"), DD("18.0153") / D * c(100), tol=1e-4, vtol=1e-4)]
    return obs + [Eq(n, o(n), var(n) * cal) for n in ("A", "G", "S", "U", "H", "Cv", "Cp")]


def small(h, l):
    import z3
    return lambda t: z3.And(t[h] > t[l], t[h] - t[l] < z3.RealVal("0.02") * t[h])


def ob_num(p, ctx, ch):
    obs = base(p)
    if p.status != "ok" or p.ints["raised"]: return obs
    t = DD("273.15") if ch["zero"] else T
    f = [fern, sver][ch["model"]]
    e = lambda a, b: f(a, uf("rho", a, b))
    hT, lT, hP, lP = o("hiT"), o("loT"), o("hiP"), o("loP")
    sT, sP = (hT - lT) / 2, (hP - lP) / 2
    obs += born(False) + [Fact("state and substance of the density", p.ints["wrong"] == 0, "wrong"), Fact("not calculated properties are undefined", p.ints["undef"] == 0 and p.ints["undefN"] == 3, "%d" % p.ints["undefN"]),
            Eq("symmetric temperature step", hT + lT, t + t), Eq("symmetric pressure step", hP + lP, P + P),
            Cond("small temperature step", small("hiT", "loT"), ["hiT", "loT"]), Cond("small pressure step", small("hiP", "loP"), ["hiP", "loP"]),
            Eq("eps", o("eps"), e(t, P)),
            Eq("epsT", o("epsT"), (e(hT, P) - e(lT, P)) / (hT - lT)), Eq("epsTT", o("epsTT"), (e(hT, P) + e(lT, P) - c(2) * e(t, P)) / (sT * sT)),
            Eq("epsP", o("epsP"), (e(t, hP) - e(t, lP)) / (hP - lP)), Eq("epsPP", o("epsPP"), (e(t, hP) + e(t, lP) - c(2) * e(t, P)) / (sP * sP))]
    return obs


DJN = {("D", "T"): "DT", ("D", "P"): "DP", ("DT", "T"): "DTT", ("DT", "P"): "DTP", ("DP", "T"): "DTP", ("DP", "P"): "DPP"}
DGEMS = {("D", "T"): lambda R: R.scale(R.mul(R.var("al"), R.var("D")), Decimal(-1)), ("D", "P"): lambda R: R.scale(R.mul(R.var("be"), R.var("D")), Decimal("1e-5")), ("al", "T"): "da"}
RHO = {"T": (261, 1270), "P": (1e3, 5e8)}


def v_num(ch):
    if ch["zero"]: return {"P": (1e3, 5e8)}
    return {"T": (274.2, 1270) if ch["model"] else (261, 1270), "P": (1e3, 5e8)}


def runner():
    g = [Group("johnson-norton", ["ElectroModelsSolvent.cpp", "Substance.cpp", "Substances/Solvent/WaterJN91reaktoro.cpp", "Substances/Solvent/Reaktoro/*.cpp", "Common/Exception.cpp"], ["dielectric.cpp"],
               {"T": (260, 1300), "P": (1e3, 5e8), "D": (0.5, 1400), "DT": (-50, 5), "DP": (1e-9, 1e-3), "DTT": (-1, 1), "DTP": (-1e-5, 1e-5), "DPP": (-1e-10, 1e-10)}, ob_jn, choices={"state": [0, 1]}, derivs=DJN, defs=["JN"]),
         Group("gems", ["Substances/Solvent/WaterHGK-JNgems.cpp", "Substance.cpp", "Common/Exception.cpp"], ["dielectric.cpp"],
               {"T": (260, 1270), "P": (0.01, 4999), "D": (0.5, 1400), "al": (-1e-3, 0.1), "be": (1e-6, 1), "da": (-1e-2, 1e-2), "A": (-1e6, 1e6), "G": (-1e6, 1e6), "S": (-1e3, 1e3), "U": (-1e6, 1e6), "H": (-1e6, 1e6), "Cv": (1, 1e3), "Cp": (1, 1e3)}, ob_gems,
               choices={"isat": [0, 1], "state": [0, 1], "from": [0, 1]}, derivs=DGEMS, defs=["GEMS"]),
         Group("difference quotients", ["ElectroModelsSolvent.cpp", "Substance.cpp", "Substances/Solvent/WaterElectroFernandez1997.cpp", "Substances/Solvent/WaterElectroSverjensky2014.cpp", "Common/Exception.cpp"], ["dielectric.cpp"], v_num, ob_num, choices={"model": [0, 1], "state": [0, 1], "zero": [0, 1]}, qtimeout=1, choice_filter=lambda ch: not (ch["zero"] and (ch["state"] or ch["model"])))]
    return Runner("W03", g, bounds=["260..1300 K, density 0.5..1400 kg/m3, 1e3..5e8 Pa"])
