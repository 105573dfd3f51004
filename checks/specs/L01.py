"""Validity limits and the warnings attached to results."""
from .common import *

META = dict(
    title="Results outside a substance's validity limits carry a warning, others none",
    statement="When the temperature or pressure is outside the limits of a substance (lower and upper T in K, P in Pa), every calculated property the engine returns for it (G, H, S, and Cp, V, U, A where the model calculates them) carries the 'out of T(..) P(..) bounds' message; when both are inside or on the limits none does and the status of the others is kept, for each model that has limits: HKF (both implementations), Akinfiev-Diamond, Berman, Murnaghan, Birch-Murnaghan, Landau and the CORK, PRSV, SRK, PR78, STP and CG gas models.",
    over=["inputs", "configurations"], qtext="all limits, for three states per model, all states for the Berman model",
    why="A missing warning is invisible in numerical tests; whether one appears depends on four comparisons for any limits, in thirteen models.",
    files=["ThermoFun/Substance.cpp", "ThermoFun/Common/Exception.cpp", "ThermoFun/ThermoEngine.cpp", "ThermoFun/Substances/"],
    mech=[("comparison with the limits", "ThermoFun/Substance.cpp: checkCalcMethodBounds"), ("message on the properties", "ThermoFun/Common/Exception.cpp: setMessage"), ("call in each model", "ThermoFun/Substances/*")],
    observe=["ThermoEngine::thermoPropertiesSubstance (status of the properties)"],
    note="T and P equal to a limit within 1e-9 relative are outside the claim (unit conversion rounds).")

NAMES = ["HKF", "HKF (reaktoro)", "Akinfiev-Diamond", "Murnaghan", "Berman", "Birch-Murnaghan", "Landau", "CORK", "PRSV", "SRK", "PR78", "STP", "CG"]
CHEAP = (4,)


def vars_(ch):
    v = {"lowerT": (100, 2000), "upperT": (100, 2000), "lowerP": (0, 1e9), "upperP": (0, 1e9)}
    if ch["sym"]: v.update(T=(250, 1500), P=(1e5, 5e8))
    return v


def init(ch): return dict(lowerT=200, upperT=1800, lowerP=100, upperP=8e8, T=600, P=1e8)


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    e = Decimal("1e-9")

    def want(msg):
        up, lo = 1 + 1e-9, 1 - 1e-9
        def fn(t):
            outside = [t["Tq"] * lo > t["upperT"], t["Tq"] * up < t["lowerT"], t["Pq"] * lo > t["upperP"], t["Pq"] * up < t["lowerP"]]
            inside = [t["Tq"] * up < t["upperT"], t["Tq"] * lo > t["lowerT"], t["Pq"] * up < t["upperP"], t["Pq"] * lo > t["lowerP"]]
            import z3
            return z3.Not(z3.And(*inside)) if msg else z3.Not(z3.Or(*outside))
        return fn
    for n in ("G", "H", "S", "Cp", "V", "U", "A"):
        if p.ints["sta_" + n] != CALC: continue
        obs.append(Cond("warning on %s" % n, want(p.ints["msg_" + n]), ["Tq", "Pq", "upperT", "lowerT", "upperP", "lowerP"]))
    if not ch["bb"]: obs.append(Fact("G, H and S are calculated", all(p.ints["sta_" + n] == CALC for n in ("G", "H", "S")), str(p.ints)))
    return obs


NAMES8 = ["G", "H", "S", "Cp", "Cv", "V", "U", "A"]
STS = (0, 1, 3)


def status_obs(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    import z3
    def want(msg):
        def fn(t):
            out = z3.Or(t["Tq"] > t["upperT"], t["Tq"] < t["lowerT"], t["Pq"] > t["upperP"], t["Pq"] < t["lowerP"])
            return out if msg else z3.Not(out)
        return fn
    for i, n in enumerate(NAMES8):
        k = str(i)
        st = STS[ch["st"]] if (i == ch["odd"]) != (ch["inv"] == 1) else CALC
        obs.append(Fact("status and value of %s are kept" % n, p.ints["sta" + k] == st and p.ints["val" + k] == 1 and p.ints["old" + k] == (i == 2), str(p.ints), lambda nn, k=k, st=st, i=i: nn.ints["sta" + k] != st or nn.ints["val" + k] != 1 or nn.ints["old" + k] != (i == 2)))
        if st == CALC:
            obs.append(Cond("warning on %s" % n, want(p.ints["msg" + k]), ["Tq", "Pq", "upperT", "lowerT", "upperP", "lowerP"]))
        else:
            obs.append(Fact("no warning on %s, which was not calculated" % n, not p.ints["msg" + k], "message on a property of status %d" % st, lambda nn, k=k: nn.ints["msg" + k] != 0))
    return obs


SRC = ["ThermoEngine.cpp", "Substance.cpp", "Reaction.cpp", "Database.cpp", "Element.cpp", "Common/Exception.cpp", "ThermoModelsSubstance.cpp", "ThermoModelsSolvent.cpp", "ThermoModelsReaction.cpp", "ElectroModelsSolvent.cpp", "GlobalFunctions.cpp"] + \
      ["Substances/EmpiricalCpIntegration.cpp", "Substances/StandardEntropyCpIntegration.cpp", "Reactions/*.cpp", "Substances/Gases/*.cpp", "Substances/Solids/*.cpp", "Substances/Solute/*.cpp", "Substances/Solvent/*.cpp", "Substances/Solvent/Reaktoro/*.cpp"]
CALC = 2


def runner():
    g = Group("limits", SRC, ["limits.cpp", "stub_json.cpp"], vars_, obligations, choices={"model": 13, "state": 3, "sym": 2, "bb": 2}, init=init, choice_filter=lambda ch: not ch["sym"] or (ch["state"] == 0 and ch["model"] in CHEAP), max_paths=30)
    sv = {"lowerT": (100, 2000), "upperT": (100, 2000), "lowerP": (0, 1e9), "upperP": (0, 1e9), "T": (250, 1500), "P": (1e5, 5e8)}
    g2 = Group("status", ["Substance.cpp", "Common/Exception.cpp"], ["limits_status.cpp", "stub_json.cpp"], lambda ch: sv, status_obs, choices={"odd": 8, "inv": 2, "st": 3}, init=lambda ch: dict(lowerT=200, upperT=1800, lowerP=100, upperP=8e8, T=600, P=1e8), max_paths=30)
    return Runner("L01", [g, g2], bounds=["thirteen models with fixed parameters, at (310 K, 2 bar), (450 K, 300 bar), (700 K, 2000 bar) with every set of limits; the Berman model at all states in 250..1500 K, 1..5000 bar", "the comparison and its message on eight properties, each one of another status than the rest, for all limits and states"])
