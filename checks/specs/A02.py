"""Aqueous species by density models (Akinfiev-Diamond, Holland-Powell 98, Anderson 91) and ideal gas water (Woolley)."""
from .common import *
from engine.poly import Decimal

META = dict(
    title="Density models for dissolved species and ideal-gas water are consistent",
    statement="For the Akinfiev-Diamond, Holland-Powell (1998) and Anderson (1991) models of dissolved species, at every T and P, for every parameter set and for any water density (and water, gas and ideal-gas properties) whose members are derivatives of one another: dG/dT=-S, dH/dT=Cp, H-G-TS constant, U=H-PV, A=U-TS, and dG/dP=V where the model has a volume term (not Anderson 1991); across the switch of the Holland-Powell model at 500 K as well. For ideal gas water (Woolley): dG/dT=-S, dH/dT=Cp, H=G+TS, U=H-RT, A=G-RT, Cv=Cp-R.",
    over=["inputs"], qtext="all temperatures, pressures, parameters, water densities with free derivatives, gas properties within the stated ranges",
    why="No stable test evaluates these models; consistency is a statement over all inputs.",
    files=["ThermoFun/Substances/Solute/SoluteADgems.cpp", "ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp", "ThermoFun/Substances/Solute/SoluteAnderson91.cpp", "ThermoFun/Substances/Solvent/WaterIdealGasWolley.cpp", "ThermoFun/ThermoModelsSubstance.cpp"],
    mech=[("hydration increments", "ThermoFun/Substances/Solute/SoluteADgems.cpp: Akinfiev_EOS_increments"), ("density models", "thermoPropertiesAqSoluteHP98, thermoPropertiesAqSoluteAN91"), ("ideal gas water", "waterIdealGas")],
    observe=["SoluteAkinfievDiamondEOS, SoluteHollandPowell98, SoluteAnderson91, WaterIdealGasWoolley ::thermoProperties"],
    note="Anderson 1991 has no volume term in the code's own documentation; its V is not claimed. Derivative members of the results are not claimed.")

T_, P_ = {"T": (275, 1200)}, {"P": (1, 5000)}
WATER = {"D": (300, 1390), "DT": (-5, -1e-3), "DP": (1e-3, 1), "DTT": (-0.1, 0.1)}
REFW = {"Dr": (900, 1100), "DTr": (-1, -1e-2), "DPr": (1e-2, 0.2), "DTTr": (-0.1, -1e-4)}
REST = {"DTP": (-1e-2, 1e-2), "DPP": (-1e-3, 1e-3), "DTPr": (-1e-2, 1e-2), "DPPr": (-1e-3, 1e-3)}
REF = {"rG": (-1e6, 1e6), "rH": (-1e6, 1e6), "rS": (-300, 300), "rCp": (-300, 300), "rV": (-10, 10), "rU": (-1, 1), "rA": (-1, 1)}


def thp(x): return {x + "G": (-1e6, 1e6), x + "S": (10, 300), x + "Cp": (10, 300), x + "V": (0, 10), x + "H": (-1e6, 1e6)}


def vars_(ch):
    m = ch["model"]
    v = {**T_, **P_, **REF, **WATER, **REST}
    if m == 2: v.update(k0=(-0.9, 0.9), k1=(-20, 20), k2=(-20, 20), **thp("i"), **thp("w"), **thp("g"), **thp("wr"), **thp("gr"), **REFW)
    if m == 3: v.update(k0=(-1, 1), **REFW)
    if m == 4: v.update(**REFW)
    if m in (3, 4): v["Tr"] = (290, 310)
    return v


def over_T(n): return lambda R: R.div(R.var(n), R.var("T"))


DER = {("D", "T"): "DT", ("D", "P"): "DP", ("DT", "T"): "DTT", ("DT", "P"): "DTP", ("DP", "T"): "DTP", ("DP", "P"): "DPP"}
for x in "iwg":
    DER[x + "G", "T"] = (lambda n: lambda R: R.scale(R.var(n), Decimal(-1)))(x + "S")
    DER[x + "S", "T"] = over_T(x + "Cp")
    DER[x + "H", "T"] = x + "Cp"
DER["wG", "P"] = lambda R: R.div(R.const("1801.528"), R.var("D"))   # J/bar, 18.01528 g/mol


def init(ch): return {"T": 473.15, "P": 2000, "D": 900, "DT": -1, "DP": 0.05, "Dr": 997, "DTr": -0.25, "DPr": 0.045, "DTTr": -0.009, "Tr": 298.15, "DTT": -0.002}


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    T, P, o = var("T"), var("P"), out
    m = ch["model"]
    obs += [Eq("dG/dT=-S", d(o("G"), "T"), -o("S")), Eq("dH/dT=Cp", d(o("H"), "T"), o("Cp"))]
    if m == 5:
        R = c("8.31451")
        return obs + [Eq("H=G+TS", o("H"), o("G") + T * o("S")), Eq("U=H-RT", o("U"), o("H") - R * T), Eq("A=G-RT", o("A"), o("G") - R * T), Eq("Cv=Cp-R", o("Cv"), o("Cp") - R)]
    if m != 4: obs.append(Eq("dG/dP=V", d(o("G"), "P"), o("V")))
    const = var("iH") - var("iG") - T * var("iS") if m == 2 else var("rH") - var("rG") - var("Tr") * var("rS")
    obs += [Eq("H-G-TS", o("H") - o("G") - T * o("S"), const), Eq("U=H-PV", o("U"), o("H") - P * o("V")), Eq("A=U-TS", o("A"), o("U") - T * o("S"))]
    return obs


from .A01 import SRC


def runner():
    g = Group("density", SRC, ["solute.cpp", "stub_json.cpp"], vars_, obligations, choices={"model": [2, 3, 4, 5]}, init=init, derivs=DER, maxdec=400, max_paths=60)
    return Runner("A02", [g], bounds=["275..1200 K, 1..5000 bar, density 300..1390 kg/m3"])
