"""Gas models: cubic equations of state, CORK, constant and ideal gas volumes."""
from .common import *
from engine.poly import Decimal

META = dict(
    title="Gas models: volume, enthalpy and entropy of one equation of state",
    statement="For a gas with the Peng-Robinson (PR78), Soave-Redlich-Kwong or Stryjek-Vera (PRSV) model, at every T and P, for all critical parameters (T equal to the critical temperature included), the volume satisfies the published equation of state, and the enthalpy and entropy added to the ideal gas ones are its departure functions: dH=TdS+(V-RT/P)dP along temperature and pressure and H-TS = RT ln(phi). The same differential relation holds for the CORK model of other gases, of CO2 below 5 kbar, and of H2O below 2 kbar and above 695 K. The standard Gibbs energy stays that of the ideal gas. The constant volume model adds V0(P-Pr) to G and H, sets V=V0, U=H-PV, A=U-TS, and changes nothing without a molar volume; the ideal gas volume is RT/P for gases and unchanged for other classes.",
    over=["inputs"], qtext="all T, volumes (hence pressures) and parameters in the stated ranges, both sides of the critical temperature",
    why="No stable test evaluates a gas model. The departure functions are closed forms with hand-made derivatives; that they belong to one equation of state is a statement over all states and parameters.",
    files=["ThermoFun/Substances/Gases/s_solmod2_.cpp", "ThermoFun/Substances/Gases/GasPR78.cpp", "ThermoFun/Substances/Gases/GasSRK.cpp", "ThermoFun/Substances/Gases/GasPRSV.cpp", "ThermoFun/Substances/Gases/GasCORK.cpp", "ThermoFun/ThermoModelsSubstance.cpp"],
    mech=[("departure functions", "s_solmod2_.cpp: TPR78calc/TSRKcalc/TPRSVcalc::FugacityPure, TCORKcalc::FugacityH2O/CO2/Corresponding"), ("adding them to the ideal gas properties", "ThermoFun/Substances/Gases/Gas*.cpp"), ("constant volume, ideal gas volume", "ThermoModelsSubstance.cpp: ConMolVol, IdealGasLawVol")],
    observe=["GasPR78, GasSRK, GasPRSV, GasCORK, ConMolVol, IdealGasLawVol ::thermoProperties"],
    note="The state is parametrised by T and V; the solver of the cubic equation (Cardano) is replaced by the known root, whose residual in the cubic handed over is checked to be zero. Its own formulas, the choice among several roots, CORK's liquid water and virial part, and the STP and CGF models are outside.")


def vars_(ch):
    m = ch["model"]
    v = {"T": (250, 1500)}
    for n in ("G", "H", "S", "Cp", "V", "U", "A"): v["i" + n] = (-1e5, 1e5)
    if m < 4: v.update(Tc=(200, 700), Pc=(20, 250))
    if m < 3:
        del v["T"]
        if ch["om"] == 0: v["om"] = (-0.3, 0.9)
        if not ch["crit"]: v["q"] = [(0.6, 0.9999), (1.0001, 1.8)][ch["hot"]]
    if m in (0, 1, 2, 4, 5): v["w"] = (0.3, 3000)
    else: v["P"] = (1, 5000)
    if m == 4: v["T"] = [(696, 1500), (450, 672.5), (673.5, 694)][ch["vap"]]
    if m == 6:
        v["Pr"] = (0.5, 2)
        if ch["vol"]: v["V0"] = (0.1, 10)
    return v


def init(ch):
    i = {"T": [800, 550, 680][ch["vap"]] if ch["model"] == 4 else 400, "w": 100 if ch.get("vap") else 8, "Tc": 350, "Pc": 60, "om": 0.2, "q": 1.2 if ch.get("hot") else 0.8, "P": 800}
    return i


def seeds(ch):
    return [{"om": 0.6, "w": 20, "Tc": 500, "Pc": 60, "q": 1.1 if ch["hot"] else 0.9}] if ch["model"] == 0 and ch["om"] == 0 else []


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok" or p.ints.get("skip"): return obs
    m, I = ch["model"], p.inputs
    T, R = var("T"), c("8.31451")
    o = lambda n: out(n)
    i = lambda n: var("i" + n)
    if m == 6:
        P = var("P")
        w = var("V0") * (P - var("Pr")) if ch["vol"] else c(0)
        obs += [Eq("G", o("G"), i("G") + w), Eq("H", o("H"), i("H") + w), Eq("S unchanged", o("S"), i("S")), Eq("Cp unchanged", o("Cp"), i("Cp")), Eq("V", o("V"), var("V0") if ch["vol"] else i("V")),
                Eq("U", o("U"), i("H") + w - P * var("V0") if ch["vol"] else i("U")), Eq("A", o("A"), i("H") + w - P * var("V0") - T * i("S") if ch["vol"] else i("A"))]
        return obs
    if m == 7:
        obs += [Eq(n + " unchanged", o(n), i(n)) for n in ("G", "H", "S", "Cp", "U", "A")]
        return obs + [Eq("V", o("V"), R * T / var("P") if ch["gas"] else i("V"))]
    obs += [Eq("standard G is that of the ideal gas", o("G"), i("G"), scale=c(1000)), Eq("Cp unchanged", o("Cp"), i("Cp"))]
    H, S = o("H") - i("H"), o("S") - i("S")
    if m < 3: T = var("Tc") if ch["crit"] else var("Tc") * var("q") * var("q")
    if m == 3:
        P, V = var("P"), o("V")
        if p.ints.get("solved"): obs.append(Fact("explicit", False, "the corresponding states model has no cubic"))
        return obs + [Eq("dH=TdS along T", d(H, "T"), T * d(S, "T")), Eq("dH=TdS+(V-RT/P)dP along P", d(H, "P"), T * d(S, "P") + V - R * T / P)]
    P = o("P")
    obs += [Fact("the cubic is solved", p.ints.get("solved") == 1, "no root asked for")]
    if not p.ints.get("solved"): return obs
    V = o("v")
    obs += [Eq("the cubic is the published one", o("residual") / o("rescale"), c(0), scale=c(1)), Eq("V", o("V"), V), Eq("H-TS=RT ln(phi)", H - T * S, p_lnphi(ch, V, P, T))]
    VR = V - R * T / P
    if m < 3:
        if not ch["crit"] and ch["om"]: obs += [Eq("dH=TdS+(V-RT/P)dP along T", d(H, "q"), T * d(S, "q") + VR * d(P, "q")), Eq("dH=TdS+(V-RT/P)dP along V", d(H, "w"), T * d(S, "w") + VR * d(P, "w"))]
    else:
        obs += [Eq("dH=TdS+(V-RT/P)dP along T", d(H, "T"), T * d(S, "T") + VR * d(P, "T")), Eq("dH=TdS+(V-RT/P)dP along V", d(H, "w"), T * d(S, "w") + VR * d(P, "w"))]
    return obs


def p_lnphi(ch, V, P, T):
    """RT ln(phi) of the published equations of state"""
    R, a, b = c("8.31451"), out("a"), out("b")
    z, B = P * V / (R * T), b * P / (R * T)
    if ch["model"] in (0, 2): r = a / (b * c(Decimal(8 ** 0.5))) * log((z + c(Decimal(1 + 2 ** 0.5)) * B) / (z + c(Decimal(1 - 2 ** 0.5)) * B))
    elif ch["model"] == 1:
        V = z * R * T / P   # the same value, written so that both logarithms have the form the code gives them
        return R * T * (z - c(1) - log(z * (c(1) - b / V))) - a / b * log(c(1) + b / V)
    else: r = a / (b * sqrt(T)) * log((V + b) / V)
    return R * T * (z - c(1) - log(z - B)) - r


SRC = ["Substances/Gases/s_solmod2_.cpp", "Substances/Gases/s_solmod_.cpp", "Substances/Gases/GasPR78.cpp", "Substances/Gases/GasSRK.cpp", "Substances/Gases/GasPRSV.cpp", "Substances/Gases/GasCORK.cpp",
       "ThermoModelsSubstance.cpp", "Substance.cpp", "Common/Exception.cpp"]
STUBS = {"_ZN6solmod%d%s7CardanoEdddRdS1_S1_" % (len(k), k): "_ZN10verif_stub5cubicEPvdddRdS1_S1_" for k in ("TPR78calc", "TSRKcalc", "TPRSVcalc", "TCORKcalc")}


def runner():
    kw = dict(init=init, seeds=seeds, stubs=STUBS)
    H = ["gas.cpp", "stub_json.cpp"]
    return Runner("G01", [
        Group("cubic", SRC, H, vars_, obligations, choices={"model": [0, 1, 2], "crit": 2, "kk": 2, "om": 4, "hot": 2}, choice_filter=lambda ch: (not ch["kk"] or (ch["model"] == 2 and not ch["hot"])) and not (ch["crit"] and (ch["hot"] or ch["kk"])) and (ch["model"] == 0 or ch["om"] < 3), max_paths=5, qtimeout=1, budget=30, max_eq=0, **kw),
        Group("cork", SRC, H, vars_, obligations, choices={"model": [3, 4, 5], "vap": 3}, choice_filter=lambda ch: not ch["vap"] or ch["model"] == 4, **kw),
        Group("simple", SRC, H, vars_, obligations, choices={"model": [6, 7], "vol": 2, "gas": 2}, **kw),
    ], bounds=["250..1500 K; volumes 1.3 to 3000 times the covolume, pressures 1e-5..1e5 bar"])
