"""Density models of reactions."""
from .common import *
from .R01 import SRC, HN, BASE, R, LN10
import functools
Eq = functools.partial(Eq, tol=1e-8, vtol=1e-7)

META = dict(
    title="Density models of reactions: K, G, H, S, Cp, V are one function of T and P",
    statement="For the Marshall-Franck, Ryzhenko-Bryzgalin and Dolejs-Manning models of a reaction, for all coefficients, T, P and every water density whose expansivity, compressibility and their temperature derivative belong to it: ln K is the published function of T and density, G = -RT ln K, log K = ln K/ln(10), dG/dT=-S, dG/dP=V, G=H-TS, Cp=dH/dT, U=H-PV and A=U-TS.",
    over=["inputs"], qtext="all temperatures, pressures, coefficients and water densities with free first and second derivatives within the stated ranges",
    why="No stable test evaluates a density model; consistency is a statement over all coefficients and density surfaces.",
    files=["ThermoFun/Reactions/FrantzMarshall.cpp", "ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp", "ThermoFun/Reactions/DolejsManning2010.cpp", "ThermoFun/ThermoModelsReaction.cpp"],
    mech=[("model formulas", "ThermoFun/Reactions/*.cpp"), ("selection of the model", "ThermoFun/ThermoModelsReaction.cpp")],
    observe=["ReactionFrantzMarshall, ReactionRyzhenkoBryzgalin, ReactionDolejsManning10 ::thermoProperties"])

K = {6: [30, 1e4, 1e6, 1e8, 50, 1e4, 1e6], 7: [1e5, 300, 50, 0.1, 200], 8: [15, 3, 2000]}
DER = {("D", "T"): "DT", ("D", "P"): "DP", ("DT", "T"): "DTT"}


def vars_(ch):
    v = {k: BASE[k] for k in ("T", "P", "rlogK", "rV", "Tr")}
    v.update(D=(200, 1390), DT=(-5, -1e-3), DP=(1e-3, 1), DTT=(-0.1, 0.1))
    v.update({"k%d" % i: (-(K[ch["model"]] + [1] * 7)[i], (K[ch["model"]] + [1] * 7)[i]) for i in range(7)})
    return v


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    T, P, o, m = var("T"), var("P"), out, ch["model"]
    k = [var("k%d" % i) for i in range(7)]
    rho = var("D") / c(1000)
    mf = lambda a, r: a[0] + a[1] / T + a[2] / (T * T) + a[3] / T ** 3 + (a[4] + a[5] / T + a[6] / (T * T)) * log(r) / log(c(10))
    if m == 6: lnK = LN10 * mf(k, rho)
    elif m == 7: lnK = -(k[0] / T + k[1] + k[2] * log(T) + k[3] * T + k[4] * log(rho)) / R
    else:   # Ryzhenko et al. (1985) with the water ionisation of Marshall and Franck (1981)
        w = [c(Decimal(x)) for x in ("-4.098", "-3245.2", "2.2362e5", "-3.984e7", "13.957", "-1262.3", "8.5641e5")]
        pkw = -mf(w, rho)
        import math
        t, r0 = 298.15, 0.997061
        pk0 = -(-4.098 - 3245.2 / t + 2.2362e5 / t ** 2 - 3.984e7 / t ** 3 + (13.957 - 1262.3 / t + 8.5641e5 / t ** 2) * math.log10(r0))
        lnK = -LN10 * (k[0] * c(Decimal(298.15)) / T + (k[1] + k[2] / T) * (pkw - c(Decimal(pk0 * 298.15)) / T) / c(Decimal("1.0107")))
    obs += [Eq("lnK", o("lnK"), lnK), Eq("logK=lnK/ln(10)", o("logK"), o("lnK") / LN10), Eq("G=-RT lnK", o("G"), -R * T * o("lnK")), Eq("dG/dT=-S", d(o("G"), "T"), -o("S")), Eq("dG/dP=V", d(o("G"), "P"), o("V")),
            Eq("G=H-TS", o("G"), o("H") - T * o("S")), Eq("Cp=dH/dT", o("Cp"), d(o("H"), "T")), Eq("U=H-PV", o("U"), o("H") - P * o("V")), Eq("A=U-TS", o("A"), o("U") - T * o("S"))]
    return obs + [Fact("logK is set", p.ints["logK_sta"] == 2, "status %d" % p.ints["logK_sta"])]


def init(ch): return {"T": 500, "P": 800, "D": 850, "DT": -1, "DP": 0.06, "DTT": -0.003}


def runner():
    g = Group("density", SRC, HN, vars_, obligations, choices={"model": [6, 7, 8], "has": [0], "cp": [0]}, init=init, derivs=DER)
    return Runner("R02", [g], bounds=["280..1200 K, 1..5000 bar, density 200..1390 kg/m3, coefficients within ranges of published data"])
