"""Reactions and substances defined by reactions."""
from .common import *
from . import E01
from .E01 import TP, tp, model, chain, PR, ref
import functools
Eq = functools.partial(Eq, tol=5e-9, vtol=1e-8)

META = dict(
    title="Reaction properties and reaction-defined substances follow from stoichiometry",
    statement="A reaction calculated from its reactants has, for each property, the sum of coefficient times substance property (gases corrected for pressure), with ln K = -G/(RT) and log K = ln K / ln 10, values and derivative members. A reaction with a model has what its model gives; the constant-volume pressure correction adds V(P-Pr) to G and H and changes ln K, log K, U and A with them. A substance defined by a reaction has the reaction property minus the contributions of the other reactants, divided by its coefficient. A property that a participant lacks is reported as not defined, not as a number, and ill-defined dependent substances raise an error.",
    over=["inputs", "configurations"], qtext="all stoichiometric coefficients, temperatures, pressures, reference and model properties (models are uninterpreted functions), all reaction methods, undefined properties and conventions",
    why="Stable tests do not calculate reactions; a wrong sum or sign gives plausible numbers.",
    files=["ThermoFun/ThermoEngine.cpp", "ThermoFun/Reaction.cpp"],
    mech=[("sums over reactants", "ThermoFun/ThermoEngine.cpp: thermoPropertiesReactionFromReactants"), ("reaction models and pressure correction", "ThermoFun/ThermoEngine.cpp: thermoPropertiesReaction"), ("dependent substances", "ThermoFun/ThermoEngine.cpp: reacDCthermoProperties")],
    observe=["ThermoEngine::thermoPropertiesReaction", "ThermoEngine::thermoPropertiesReactionFromReactants", "ThermoEngine::thermoPropertiesSubstance"],
    note="The numerical models are replaced by uninterpreted functions of all their arguments. Reactions of three or four substances.")

R, LN10 = c("8.31451"), c("2.302585093")
ALL = PR + ("lnK", "logK")
MT = ["", "LGK", "LGK", "LGK", "LGK", "LGK", "LGK", "DMD", "DKR", "MRB", "LGK", ""]
Tt, Pt = TP(var("T"), 1, 0), None


def substances(ch, T, P):
    """the participants, gases corrected for pressure"""
    cp = lambda n: model("CPT:" + n, T, P)
    s = {"A": chain("CEH:A", T, P, cp("A")), "B": cp("B"), "G": chain("CORK+p:G", T, P, cp("G"))}
    if ch["conv"] & 1:
        for t in s.values(): t["G"] = t["G"] - var("xTr") * (var("entropy_Na") + var("entropy_Cl"))
    return s


def undef_sub(ch, n):
    if n != "A": return set()
    return {0: set(), 1: {"H"}, 2: {"G"}, 3: {"S"}}[ch["undef"]]


def total(nu, subs, un):
    t, u = {}, set()
    for k in PR:
        t[k] = sum((s_ * tp(nu[n]) for n, s_ in ((n, subs[n][k]) for n in nu)), tp(0))
        if any(k in un[n] for n in nu): u.add(k)
    t["lnK"] = tp(0) - t["G"] / (tp(R) * Tt)
    t["logK"] = t["lnK"] / tp(LN10)
    if "G" in u: u |= {"lnK", "logK"}
    return t, u


def expected(p, ch):
    """(properties, undefined ones, pressure left) or None when an error has to be raised"""
    T, p0 = var("T"), ch["p0"]
    P = c(0) if p0 else var("P")
    kind, m, rp = ch["kind"], ch["rm"], ch["rp"]
    if kind in (0, 3):
        nu = {n: var("n" + n) for n in "AGB"} if kind == 0 else {"A": c(-1), "B": c(-2), "G": c(3)}
        return total(nu, substances(ch, T, P), {n: undef_sub(ch, n) for n in nu})
    # the reaction with its model
    if kind == 2 and ch["api"] == 2:
        nu = {n: var("n" + n) for n in "AGB"}
        return total(nu, substances(ch, T, P), {n: undef_sub(ch, n) for n in nu})
    if kind != 2 and ch["noreac"]: return None
    if m == 0 and rp == 0:
        if kind != 2: return None
        nu = {n: var("n" + n) for n in "AGB"}
        return total(nu, substances(ch, T, P), {n: undef_sub(ch, n) for n in nu})
    un = set()
    if m == 11: t = {k: tp(var("q" + k)) for k in ALL}
    elif MT[m] == "LGK":
        t = model("LGK:R:%d" % p.ints["mt"], T, P, props=ALL)
        if ch["undefr"]: un = {"H"}
    elif MT[m]:
        rho, P = E01.water(dict(wat=0), T, P, "H2O@", 0, p0)
        t = model(MT[m] + ":R", T, P, rho, props=ALL)
    else: t, un = {k: tp(0) for k in ALL}, set(ALL)
    if m not in (9, 11):
        if rp in (1, 2):
            b = c("1e-5")
            Pb = TP(P * b, 0, b)
            VP = t["V"] * (Pb - tp(var("qPr") * b))
            t = dict(t, G=t["G"] + VP, H=t["H"] + VP, lnK=t["lnK"] - VP / (tp(R) * Tt), logK=t["logK"] - VP / (tp(R) * Tt) / tp(LN10))
            t["S"] = (t["H"] - t["G"]) / Tt
            t["U"] = t["H"] - Pb * t["V"]
            t["A"] = t["U"] - Tt * t["S"]
            if "H" in un: un = un | {"S", "U", "A"}
        elif rp in (4, 5):
            t, un = model("VOL:R", T, P, props=ALL), set()
    if kind == 2: return t, un
    # dependent substance
    subs = substances(ch, T, P)
    d, ud = {}, set(un) & set(PR)
    for k in PR:
        d[k] = t[k]
        for n in "AGB":
            d[k] = d[k] - subs[n][k] * tp(var("n" + n))
            if k in undef_sub(ch, n): ud.add(k)
        d[k] = d[k] / tp(var("nD"))
    if ch["dcon"] and rp in (0, 3):
        # the volume correction acts on the properties that are there
        d = {k: TP(0, 0, 0) if k in ud else v for k, v in d.items()}
        d = chain("CON:D", T, P, d)
        if not ud: pass
        else: return None, "skip"
        ud = set()
    if kind == 4:
        un4 = {"D": ud, "G": set()}
        return total({"D": var("mD"), "G": var("mG")}, {"D": d, "G": subs["G"]}, un4)
    return d, ud


def obligations(p, ctx, ch):
    e = expected(p, ch)
    if e is None: return [Fact("an error is reported", p.status == "ok" and "raised" in p.ints, "status %s" % p.status)]
    obs = [returns(p)]
    if p.status != "ok": return obs
    obs.append(Fact("no error is reported", "raised" not in p.ints, "an exception"))
    if "raised" in p.ints: return obs
    t, un = e
    if un == "skip": return obs
    for k in (PR if ch["kind"] == 1 else ALL):
        if k in un:
            obs.append(Fact(k + " is reported as not defined", p.ints[k + "_sta"] == 0, "status %d" % p.ints[k + "_sta"]))
            continue
        obs.append(Fact(k + " is defined", p.ints[k + "_sta"] != 0, "status %d" % p.ints[k + "_sta"]))
        obs += [Eq(k, out(k), t[k].v), Eq(k + " temperature derivative member", out(k + "_T"), t[k].t), Eq(k + " pressure derivative member", out(k + "_P"), t[k].p)]
    return obs


VARS = {"T": (250, 1500), "P": (1e5, 1e9), "wTr": (280, 300), "wPr": (0.9e5, 1.1e5), "xTr": (290, 310), "xPr": (1e5, 2e5), "qTr": (290, 310), "qPr": (1e5, 2e5), "entropy_Na": (10, 100), "entropy_Cl": (10, 100),
        "nA": (-3, 3), "nG": (-3, 3), "nB": (-3, 3), "nD": (-3, 3), "mD": (-3, 3), "mG": (-3, 3)}
for k in PR:
    for s in ("w", "rA", "rB", "rG", "rD"): VARS[s + k] = (-1e5, 1e5)
for k in ALL: VARS["q" + k] = (-1e5, 1e5)
SRC = ["ThermoEngine.cpp", "Substance.cpp", "Reaction.cpp", "Database.cpp", "Element.cpp", "Common/Exception.cpp"]
H = ["engine.cpp", "models_uf.cpp", "stub_json.cpp"]


def grp(name, flt=None, **kw):
    chs = dict(wat=[0], diel=[0], vapor=[0], kind=[0], rm=[0], rp=[0], dcon=[0], noreac=[0], undef=[0], undefr=[0], conv=[0], p0=[0], again=[0], api=[0])
    chs.update(kw)
    return Group(name, SRC, H, VARS, obligations, choices=chs, defs=["MODE=1"], choice_filter=flt, max_paths=24)


def runner():
    return Runner("R03", [
        grp("from reactants", kind=[0], undef=range(4), conv=[0, 1], p0=[0, 1], again=[0, 1], api=range(3)),
        grp("equation", kind=[3], undef=range(2), conv=[0, 1], again=[0, 1]),
        grp("reaction models", kind=[2], rm=range(12), rp=range(6), p0=[0, 1], undefr=[0, 1], api=range(3), flt=lambda c_: not c_["undefr"] or c_["rm"] in (1, 2, 3, 4, 5, 6, 10)),
        grp("dependent substance", kind=[1], rm=range(12), rp=range(6), dcon=[0, 1], conv=[0, 1], again=[0, 1]),
        grp("dependent substance at saturation", kind=[1], rm=[1, 7, 8], rp=[0, 2], p0=[1], undef=range(4)),
        grp("dependent substance in a reaction", kind=[4], rm=[1, 2, 7, 11], rp=[0, 2], undef=range(3), dcon=[0, 1], again=[0, 1]),
        grp("ill-defined dependent substance", kind=[1, 4], rm=[0, 1], dcon=[0, 1], noreac=[0, 1]),
    ], bounds=["reactions of two to four substances; all combinations of the listed reaction models and pressure methods; symbolic coefficients"])
