"""Properties of water from its equation of state."""
from .common import *
from engine.poly import Decimal
import functools
Eq = functools.partial(Eq, tol=1e-8, vtol=1e-7)

META = dict(
    title="Water models: density solves p(T,D)=P and all properties follow from it",
    statement="For the Haar-Gallagher-Kell and Wagner-Pruss (Reaktoro) water models, at every T and P, phase preference and reference state: the reported density is one at which the equation of state gives the pressure asked for (the saturation pressure when P is 0, which is reported back); the density and pressure derivatives, expansivity, compressibility and its temperature derivative are the derivatives of that density; and the molar properties obey, at constant pressure or temperature, dG/dT=-S, dG/dP=V, dH/dT=Cp, dU/dT=Cv at constant density, dA/dT=-S, dA/dV=-P, with S, G, H, U, A offset by the chosen triple point values.",
    over=["inputs"], qtext="all temperatures, densities and free values of the Helmholtz energy and its nine derivatives within the stated ranges, three phase preferences, three reference states",
    why="The properties must belong together for every equation of state value, which no sampled state shows; no stable test evaluates water.",
    files=["ThermoFun/ThermoModelsSolvent.cpp", "ThermoFun/Substances/Solvent/Reaktoro/WaterThermoStateUtils.cpp", "ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp", "ThermoFun/Substances/Solvent/WaterWP95reaktoro.cpp", "ThermoFun/Substances/Solvent/WaterHGKreaktoro.cpp"],
    mech=[("density iteration", "WaterUtils.cpp: waterDensity"), ("derivatives", "WaterThermoStateUtils.cpp: waterThermoState"), ("molar properties and solvent properties", "WaterWP95reaktoro.cpp, WaterHGKreaktoro.cpp")],
    observe=["WaterHGKreaktoro, WaterWP95reaktoro ::propertiesSolvent, ::thermoPropertiesSubstance"],
    note="The Helmholtz functions (W01) are replaced by a stand-in whose pressure is linear in density with free slope and level, so the iteration has one solution; convergence of the iteration on the real, non-linear functions is outside.")

SRC = ["ThermoModelsSolvent.cpp", "Substance.cpp", "Substances/Solvent/Reaktoro/WaterThermoStateUtils.cpp", "Substances/Solvent/Reaktoro/WaterUtils.cpp", "Substances/Solvent/WaterWP95reaktoro.cpp", "Substances/Solvent/WaterHGKreaktoro.cpp", "Common/Exception.cpp"]
DER = {}
for n in ("", "T", "D", "TT", "TD", "DD"):
    for k in "TD": DER[("h" + n, k)] = "h" + "".join(sorted(n + k, reverse=True))
MW = c(Decimal("0.018015268"))


def vars_(ch):
    if "temp" in ch: return {"D": (0.5, 1300), "hD": (1e-3, 2e5), "hDD": (1e-6, 50)}
    v = {"psat": (100, 2.2e7), "T": (260, 1300), "D": (0.5, 1300), "h": (-1e6, 1e6), "hT": (-1e4, 1e4), "hTT": (-100, -1e-2), "hTD": (-50, 50), "hDD": (1e-6, 50), "hTTT": (-1, 1), "hTTD": (-1, 1), "hTDD": (-1, 1), "hDDD": (-1, 1)}
    v["hD"] = (1e-3, 2e5)
    return v


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    o, T, D = out, var("T"), var("D")
    obs.append(Fact("no exception", p.ints["raised"] == 0, "exception", lambda n: n.ints.get("raised") != 0))
    if p.ints["raised"]: return obs
    obs.append(Fact("the other equation of state is not used", p.ints["other"] == 0, "used"))
    obs.append(Eq("density", o("density"), D))
    if "temp" in ch: return obs + [Eq("starting density", o("first"), o("want"))]
    P0 = var("psat") if ch["psat"] else D * D * var("hD")
    obs += [Eq("pressure reported", o("P1"), P0), Eq("pressure reported with the molar properties", o("P2"), P0), Eq("pressure", o("pressure"), P0), Eq("temperature of the density", o("dT"), T), Eq("pressure of the density", o("dP"), P0), Fact("phase preference", p.ints["dstate"] == ch["state"] - 1, "state %d" % p.ints["dstate"])]
    if ch["psat"]: return obs
    Pr = D * D * var("hD")
    pT, pD = d(Pr, "T"), d(Pr, "D")
    dTP = lambda x: d(x, "T") - d(x, "D") * pT / pD
    dPT = lambda x: d(x, "D") / pD
    obs += [Eq("pressure derivatives: dT", o("pressureT"), pT), Eq("pressure derivatives: dD", o("pressureD"), pD), Eq("pressure derivatives: dTT", o("pressureTT"), d(o("pressureT"), "T")), Eq("pressure derivatives: dTD", o("pressureTD"), d(o("pressureT"), "D")), Eq("pressure derivatives: dDD", o("pressureDD"), d(o("pressureD"), "D")),
            Eq("density derivatives: dT", o("densityT"), dTP(o("density"))), Eq("density derivatives: dP", o("densityP"), dPT(o("density"))), Eq("density derivatives: dTT", o("densityTT"), dTP(o("densityT"))), Eq("density derivatives: dTP", o("densityTP"), dPT(o("densityT"))), Eq("density derivatives: dPP", o("densityPP"), dPT(o("densityP"))),
            Eq("Alpha", o("Alpha"), -o("densityT") / D), Eq("Beta", o("Beta"), o("densityP") / D), Eq("dAlpha/dT", o("dAldT"), dTP(o("Alpha")))]
    tr = [("15.1320", "-56290.0", "-68767.0", "-67887.0", "-55415.0"), ("15.1386", "-56279.9", "-68766.44", "-67921.9", "-55434.49"), ("15.1374", "-56279.9", "-68766.76", "-67922.22", "-55434.49")][ch["triple"]]
    S, G, H, U, A = (c(Decimal(x) * Decimal("4.184")) for x in tr)
    Ttr = c(Decimal(["273.15", "273.16"][ch["eos"]]))
    h, hT, hTT = var("h"), var("hT"), var("hTT")
    obs += [Eq("V", o("V"), MW / D * c(100000)), Eq("dG/dT=-S", dTP(o("G")), -o("S")), Eq("dG/dP=V", dPT(o("G")) * c(100000), o("V")), Eq("dH/dT=Cp", dTP(o("H")), o("Cp")), Eq("T dS/dT=Cp", T * dTP(o("S")), o("Cp")), Eq("dU/dT=Cv at constant density", d(o("U"), "T"), o("Cv")),
            Eq("dA/dT=-S at constant density", d(o("A"), "T"), -o("S")), Eq("dA/dV=-P", d(o("A"), "D") * D * D, MW * Pr),
            Eq("S", o("S"), S - MW * hT), Eq("U", o("U"), U + MW * (h - T * hT)), Eq("H-U=PV", o("H") - H, o("U") - U + MW * Pr / D), Eq("G", o("G") - G, o("H") - H - T * o("S") + Ttr * S), Eq("A", o("A") - A, o("U") - U - T * o("S") + Ttr * S)]
    return obs


def init(ch): return {"psat": 1e6, "T": 500, "D": 838, "hD": 20, "hDD": 1, "h": -1e5, "hT": -2e3, "hTT": -6, "hTD": 2, "hTTT": 0.01, "hTTD": 0.01, "hTDD": 0.01, "hDDD": 0.01}


def runner():
    g = [Group("state", [x for x in SRC if "WaterUtils" not in x], ["waterstate.cpp"], vars_, obligations, choices={"eos": [0, 1], "state": [0, 1, 2], "triple": [0, 1, 2], "psat": [0, 1]}, init=init, derivs=DER, choice_filter=lambda ch: not (ch["psat"] and ch["triple"])),
         Group("density", [x for x in SRC if "WaterUtils" in x or "Exception" in x], ["waterstate.cpp"], vars_, obligations, choices={"eos": [0, 1], "state": [0, 1, 2], "temp": [0, 2, 4, 5, 7]}, init=init, qtimeout=1, defs=["DENSITY"])]
    return Runner("W02", g, bounds=["260..1300 K, density 0.5..1300 kg/m3, positive compressibility; density iteration: 5 temperatures"])
