"""The result of a calculation does not depend on the calculations made before it."""
from .common import *
import functools
Eq = functools.partial(Eq, vtol=1e-11)

META = dict(
    title="What the engine returns depends on the request and the current settings only",
    statement="Whatever was calculated before (any substance, reaction or solvent property, at the same or another temperature and pressure, with success or with an error), and however conventions, preferences and the solvent were changed in between or the engine copied, a call returns the same properties, status and pressure as the same call on a newly made engine with the same data and settings. Caching is not observable.",
    over=["inputs", "histories"], qtext="all pairs (and some triples) of calls out of ten kinds, at same or different symbolic states or at saturation, with every change of settings or a copy in between",
    why="Results are memoized and the engine switches internal flags while it works; a stale result only shows after a particular earlier call.",
    files=["ThermoFun/ThermoEngine.cpp", "ThermoFun/OptimizationUtils.h"],
    mech=[("memoized functions and settings they depend on", "ThermoFun/ThermoEngine.cpp: ThermoEngine::Impl::set_fn"), ("cache keys and restored arguments", "ThermoFun/OptimizationUtils.h: memoize, memoizeN"), ("internal switches", "ThermoFun/ThermoEngine.cpp: reacDCthermoProperties, thermoPropertiesReactionFromReactants")],
    observe=["ThermoEngine::thermoPropertiesSubstance", "ThermoEngine::thermoPropertiesReaction", "ThermoEngine::propertiesSolvent", "ThermoEngine::electroPropertiesSolvent"],
    note="The numerical models are replaced by uninterpreted functions of all their arguments. Histories of two or three calls.")


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    a = {k[2:] for k in list(p.outs) + list(p.ints) if k.startswith("a.")}
    b = {k[2:] for k in list(p.outs) + list(p.ints) if k.startswith("b.")}
    obs.append(Fact("same kind of outcome", a == b, "only one of the two engines gave %s" % sorted(a ^ b)[:4]))
    obs.append(Fact("an outcome is reported", len(b) > 0, "nothing"))
    for k in sorted(a & b):
        if "a." + k in p.ints: obs.append(Fact("same " + k, p.ints["a." + k] == p.ints["b." + k], "%d and %d" % (p.ints["a." + k], p.ints["b." + k])))
        else: obs.append(Eq("same " + k, out("a." + k), out("b." + k)))
    return obs


PR = ("G", "H", "S", "Cp", "V", "U", "A", "Cv")
VARS = {"T": (250, 1500), "P": (1e5, 1e9), "T2": (250, 1500), "P2": (1e5, 1e9), "wTr": (280, 300), "wPr": (0.9e5, 1.1e5), "xTr": (290, 310), "xPr": (1e5, 2e5), "entropy_Na": (10, 100), "entropy_Cl": (10, 100)}
for k in PR:
    for s in ("w", "rA", "rG", "rD", "rE", "rF", "n"): VARS[s + k] = (-1e5, 1e5)
SRC = ["ThermoEngine.cpp", "Substance.cpp", "Reaction.cpp", "Database.cpp", "Element.cpp", "Common/Exception.cpp"]
H = ["engine.cpp", "models_uf.cpp", "stub_json.cpp"]


def grp(name, **kw):
    chs = dict(wat=[0], diel=[0], vapor=[0], first=range(10), second=range(10), fpt=[0], spt=[0], three=[0], change=[0])
    chs.update(kw)
    return Group(name, SRC, H, VARS, obligations, choices=chs, defs=["MODE=2"], max_paths=24, maxdec=4000)


def runner():
    return Runner("E02", [
        grp("same state", fpt=[0], spt=[0]),
        grp("saturation", fpt=[4], spt=[4], first=[0, 2, 3, 4, 5, 6, 7], second=[0, 2, 3, 4, 5, 6, 7]),
        grp("other state", fpt=[0], spt=[3], first=[0, 1, 2, 3, 5, 9], second=[0, 2, 4, 5, 6]),
        grp("changed settings", change=[1, 2, 4, 5, 6], first=[0, 1, 2, 3, 4, 8], second=[0, 1, 2, 3, 4, 8]),
        grp("copy", change=[7], first=[0, 2, 9], second=[0, 1, 2, 3, 4, 5]),
        grp("new data", change=[8], first=[0, 1, 2, 3], second=[0, 1, 2, 3, 4], fpt=[0], spt=[0, 4]),
        grp("three calls", three=[1], fpt=[0], spt=[2], first=[0, 2, 3, 5, 9], second=[0, 1, 2, 4]),
    ], bounds=["histories of two calls (three in one group) out of ten kinds; two temperatures, two pressures and saturation; one change of settings or one copy in between"])
