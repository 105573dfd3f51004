"""Zhang and Duan 2005 equation of state of water."""
from .common import *
from engine.poly import Decimal
import functools
Eq = functools.partial(Eq, tol=1e-8, vtol=1e-7)

META = dict(
    title="Zhang-Duan water: volume solves the published equation, derivatives follow",
    statement="The molar volume of water in the Zhang and Duan (2005) model is a solution of the published equation of state at the temperature and pressure asked for, and its temperature and pressure derivative members are the derivatives of that solution. Density (kg/m3) and molar volume (J/bar) are that volume; the density derivatives are symmetric first and second difference quotients of it over a small step, per K and per Pa, and their derivative members are the same quotients of the derivatives of that density; expansivity, compressibility and dAlpha/dT are -dD/dT/D, dD/dP/D and -d2D/dT2/D + Alpha^2; the properties the model does not give stay undefined.",
    over=["inputs"], qtext="all temperatures and solution volumes, arbitrary derivatives of the iterate, arbitrary volume as a function of T and P within the stated ranges",
    why="A wrong coefficient, unit or step shifts every geochemical result at mantle pressure without any error, and no stable test evaluates this model.",
    files=["ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp", "ThermoFun/ThermoModelsSolvent.cpp"],
    mech=[("volume iteration", "WaterZhangDuan2005.cpp: waterMolarVolume"), ("difference quotients", "WaterZhangDuan2005.cpp: propertiesWaterZhangDuan2005"), ("unit of pressure", "ThermoModelsSolvent.cpp: WaterZhangDuan2005")],
    observe=["WaterZhangDuan2005::propertiesSolvent, ::thermoPropertiesSubstance"],
    note="The iteration is decided at its end: started at a solution it must stay there, with the derivatives of the solution whatever those of the start. Convergence from the fixed start value is outside. The volume is a free function in the second part.")

T, P, V = var("T"), var("P"), var("V")
o = out
DD = lambda s: c(Decimal(s))


def eos(T, V):
    a = [None] + [DD(x) for x in "3.49824207e-01 -2.91046273e+00 2.00914688e+00 1.12819964e-01 7.48997714e-01 -8.73207040e-01 1.70609505e-02 -1.46355822e-02 5.79768283e-02 -8.41246372e-04 4.95186474e-03 -9.16248538e-03 -1.00358152e-01 -1.82674744e-03".split()]
    r = T / DD("647.25")
    q = lambda i: a[i] + a[i + 1] / (r * r) + a[i + 2] / (r * r * r)
    Z = c(1) + q(1) / V + q(4) / V ** 2 + q(7) / V ** 4 + q(10) / V ** 5 + (a[13] / r / V ** 2 + a[14] * r / V ** 4) * exp(DD("-1.05999998e-02") / V ** 2)
    return DD("83.14467") * T * Z / (V * DD("55.9480373"))


def ob_eos(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    obs.append(Fact("no exception", p.ints["raised"] == 0, "exception", lambda n: n.ints.get("raised") != 0))
    if p.ints["raised"]: return obs
    e = eos(T, V)
    return obs + [Eq("pressure", o("P"), e), Eq("volume", o("V"), V), Eq("temperature derivative of the volume", o("VT"), -d(e, "T") / d(e, "V")), Eq("pressure derivative of the volume", o("VP"), c(1) / d(e, "V"))]


def small(h, l):
    import z3
    return lambda t: z3.And(t[h] > t[l], t[h] - t[l] < z3.RealVal("0.02") * t[h])


def ob_der(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    obs.append(Fact("no exception", p.ints["raised"] == 0, "exception", lambda n: n.ints.get("raised") != 0))
    if p.ints["raised"]: return obs
    v = lambda a, b: uf("v", a, b) * DD("5.59480373")
    D = lambda a, b: DD("18.015268") * 100 / v(a, b)
    bar = P / c(100000)
    hT, lT, hP, lP = o("hiT"), o("loT"), o("hiP"), o("loP")
    sT, sP = (hT - lT) / 2, (hP - lP) / 2
    DT = lambda a, b: -D(a, b) * uf("vT", a, b) / uf("v", a, b)
    DP = lambda a, b: -D(a, b) * uf("vP", a, b) / uf("v", a, b) / c(100000)
    def quot(D, T, bar):
        return [("density", D(T, bar)), ("densityT", (D(hT, bar) - D(lT, bar)) / (hT - lT)), ("densityP", (D(T, hP) - D(T, lP)) / (hP - lP) / c(100000)),
                ("densityTT", (D(hT, bar) + D(lT, bar) - c(2) * D(T, bar)) / (sT * sT)), ("densityPP", (D(T, hP) + D(T, lP) - c(2) * D(T, bar)) / (sP * sP) / c(10 ** 10))]
    Al = -o("densityT") / o("density")
    return obs + [Eq("molar volume", o("Vm"), v(T, bar)), Eq("pressure unchanged", o("Pafter"), o("Pbefore")),
        Eq("symmetric temperature step", hT + lT, T + T), Eq("symmetric pressure step", hP + lP, bar + bar), Cond("small temperature step", small("hiT", "loT"), ["hiT", "loT"]), Cond("small pressure step", small("hiP", "loP"), ["hiP", "loP"]),
        ] + [Eq(n + m, o(n + m), e) for m, D_ in (("", D), ("_T", DT), ("_P", DP)) for n, e in quot(D_, T, bar)] + [
        Eq("Alpha", o("Alpha"), Al, cut=("density", "densityT")), Eq("Beta", o("Beta"), o("densityP") / o("density"), cut=("density", "densityP")), Eq("dAlpha/dT", o("dAldT"), Al * Al - o("densityTT") / o("density"), cut=("density", "densityT", "densityTT")),
        Fact("properties the model does not give are undefined", p.ints["undef"] == 7, "%d" % p.ints["undef"])]


def runner():
    S = ["Substances/Solvent/WaterZhangDuan2005.cpp", "Common/Exception.cpp"]
    M = "ThermoModelsSolvent.cpp Substance.cpp".split() + S
    ST = {"_ZN9ThermoFun16waterMolarVolumeEN9Reaktoro_11TemperatureENS0_8PressureENS0_16ThermoScalarBaseIdEE": "_ZN10verif_stub3volEN9Reaktoro_11TemperatureENS0_8PressureENS0_16ThermoScalarBaseIdEE"}
    g = [Group("volume", S, ["zhangduan.cpp"], {"T": (400, 2273), "V": (0.2, 3), "V0T": (-0.01, 0.01), "V0P": (-0.01, 0.01)}, ob_eos, init=lambda ch: {"T": 1000, "V": 0.4}, defs=["EOS"], max_paths=4, skip_flip=lambda p, i: True),
         Group("derivatives", M, ["zhangduan.cpp"], {"T": (274, 2273), "P": (1e8, 3e10)}, ob_der, choices={"state": [0, 1]}, stubs=ST)]
    return Runner("W04", g, bounds=["274..2273 K, 1e8..3e10 Pa; reduced volume 0.2..3"])
