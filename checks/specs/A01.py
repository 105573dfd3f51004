"""Aqueous species: HKF equation of state (both implementations)."""
from .common import *

META = dict(
    title="HKF aqueous species: V, S, H, Cp are the derivatives of the same Gibbs energy",
    statement="For both implementations of the revised HKF equation of state, at every temperature and pressure, on both sides of every region boundary of the g function, for every charge and parameter set, and for any density and Born functions of water that are derivatives of one another: dG/dP=V, dG/dT=-S, dH/dT=Cp, T dS/dT=Cp, the Maxwell relation holds, H-G-TS is the constant given by the reference properties, U=H-PV and A=U-TS, and the two implementations agree.",
    over=["inputs"], qtext="all temperatures, pressures, charges, HKF parameters, water densities and dielectric functions (with free derivatives) within the stated ranges; every region of the g function",
    why="No stable test evaluates an aqueous species; consistency of the coupled closed forms is a statement over all inputs and all water models.",
    files=["ThermoFun/Substances/Solute/SoluteHKFgems.cpp", "ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp", "ThermoFun/ThermoModelsSubstance.cpp"],
    mech=[("solvent function g and its derivatives", "ThermoFun/Substances/Solute/SoluteHKFgems.cpp: gShok2; SoluteHKFreaktoro.cpp: functionG"), ("Born coefficient of the species", "omeg92, speciesElectroStateHKF"), ("properties", "thermoPropertiesAqSoluteHKFgems, thermoPropertiesAqSoluteHKFreaktoro")],
    observe=["SoluteHKFgems::thermoProperties", "SoluteHKFreaktoro::thermoProperties"],
    note="Derivative members of the results are not claimed. ")

VARS = {"T": (275, 1200), "P": (1, 5000), "D": (300, 1390), "DT": (-5, 5), "DP": (1e-3, 1), "DTT": (-0.1, 0.1), "DTP": (-1e-2, 1e-2), "DPP": (-1e-3, 1e-3),
        "Z": (-0.1, -0.005), "Y": (-1e-3, 1e-3), "Q": (-1e-3, 1e-3), "X": (-1e-4, 1e-4), "N": (-1e-5, 1e-5), "U": (-1e-5, 1e-5),
        "rG": (-1e6, 1e6), "rH": (-1e6, 1e6), "rS": (-300, 300), "rCp": (-300, 300), "rV": (-10, 10), "rU": (-1, 1), "rA": (-1, 1)}
for i, (a, b) in enumerate(((-0.5, 1), (-1000, 1000), (-20, 20), (-1e5, 1e5), (-100, 100), (-1e6, 1e6), (0.5e5, 3e5))): VARS["k%d" % i] = (a, b)
DER = {("D", "T"): "DT", ("D", "P"): "DP", ("DT", "T"): "DTT", ("DT", "P"): "DTP", ("DP", "T"): "DTP", ("DP", "P"): "DPP",
       ("Z", "T"): "Y", ("Z", "P"): "Q", ("Y", "T"): "X", ("Y", "P"): "U", ("Q", "T"): "U", ("Q", "P"): "N"}


def init(ch): return {"T": 473.15, "P": 2000, "D": 900, "DT": -1, "DP": 0.05, "k6": 1e5}


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    T = var("T")
    # volume factor 41.84004 against 41.84
    kw = dict(tol=3e-6, vtol=1e-5)
    o = out
    obs += [Eq("dG/dT=-S", d(o("G"), "T"), -o("S")), Eq("dG/dP=V", d(o("G"), "P"), o("V"), **kw), Eq("dH/dT=Cp", d(o("H"), "T"), o("Cp")),
            # T dS/dT = Cp and the Maxwell relation follow from these four
            Eq("H-G-TS", o("H") - o("G") - T * o("S"), var("rH") - var("rG") - c("298.15") * var("rS")),
            Eq("U=H-PV", o("U"), o("H") - var("P") * o("V")), Eq("A=U-TS", o("A"), o("U") - T * o("S"))]
    return obs




def agree(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    # reference Born constants of the two differ by 6e-4
    for n in ("G",):   # the others are its derivatives in both
        obs.append(Eq("GEMS and reaktoro agree: " + n, out(n), out("r_" + n), tol=1e-3, vtol=2e-3))
    return obs


SRC = ["Substances/Solute/SoluteHKFgems.cpp", "Substances/Solute/SoluteHKFreaktoro.cpp", "Substances/Solute/SoluteADgems.cpp", "Substances/Solute/SoluteHollandPowell98.cpp", "Substances/Solute/SoluteAnderson91.cpp",
       "Substances/Solvent/WaterIdealGasWolley.cpp", "ThermoModelsSubstance.cpp", "Substance.cpp", "Common/Exception.cpp"]
CHARGES = [8, 9, 7, 10, 6, 11, 5] if THOROUGH else [8, 9, 7, 10, 5]   # 0, 1, -1, 2, (-2, 3,) -3


def few(c):
    return (not c["hplus"] or c["charge"] == 9) and (THOROUGH or c["model"] == 0 or c["charge"] in (8, 9, 7))


def runner():
    kw = dict(init=init, derivs=DER, maxdec=200, max_paths=40, max_eq=1 if THOROUGH else 0)
    g = Group("hkf", SRC, ["solute.cpp", "stub_json.cpp"], VARS, obligations, choices={"model": [0, 1], "charge": CHARGES, "hplus": 2, "both": [0]}, choice_filter=few, **kw)
    lt1 = dict(VARS, D=(300, 999))
    b = Group("both", SRC, ["solute.cpp", "stub_json.cpp"], lt1, agree, choices={"model": [0], "charge": CHARGES, "hplus": [0], "both": [1]}, **kw)
    return Runner("A01", [g, b], bounds=["275..1200 K, 1..5000 bar, density 300..1390 kg/m3, charges 0, 1, -1 (GEMS also 2, -3; thorough: -3..3 for both), HKF parameters within published ranges", "agreement of the two implementations for densities below 1000 kg/m3", "inputs at which an intermediate value is exactly zero (density exactly 1000 kg/m3 ...) only in the thorough run"])
