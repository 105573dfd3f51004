"""Selection and chaining of the calculation models of a substance."""
from .common import *

META = dict(
    title="A substance is calculated with exactly the models its record selects",
    statement="For every combination of the methods a substance record may carry, the engine applies the equation of state, then the temperature correction, then the pressure correction the record names, each with the properties left by the one before, at the requested temperature and pressure and with the solvent properties at that state (resp. the solvent's reference state). Solvent and steam use the water model and triple point named, H+ is zero, a constant or method-less record gives its reference properties; conventions (steam tables, Berman-Brown) shift exactly the stated properties, fallback replaces exactly the undefined ones. A pressure of zero is replaced by the saturation pressure for everything that depends on the solvent.",
    over=["inputs", "configurations"], qtext="all combinations of equation of state, temperature and pressure method, water and dielectric models, conventions, fallback, and all temperatures, pressures, reference properties and model results (models are uninterpreted functions)",
    why="Stable tests do not run the engine; the dispatch tables have hundreds of method combinations and a wrong one gives plausible numbers.",
    files=["ThermoFun/ThermoEngine.cpp", "ThermoFun/Database.cpp"],
    mech=[("dispatch of the substance models", "ThermoFun/ThermoEngine.cpp: thermoPropertiesSubstance"), ("dispatch of the solvent models", "ThermoFun/ThermoEngine.cpp: propertiesSolvent, electroPropertiesSolvent"), ("conventions and fallback", "ThermoFun/ThermoEngine.cpp: toSteamTables, toBermanBrown, fallbackThermoPropertiesSubstance")],
    observe=["ThermoEngine::thermoPropertiesSubstance", "ThermoEngine::propertiesSolvent", "ThermoEngine::electroPropertiesSolvent"],
    note="The numerical models are replaced by uninterpreted functions of all their arguments (any result is allowed). ")

PR = ("G", "H", "S", "Cp", "V", "U", "A", "Cv")
import functools
Eq = functools.partial(Eq, vtol=1e-11)
EOS = ["", "CON", "CPT", "HKF", "HKFR", "HP98", "AN91"]
MT = ["", "CHP", "CST"]
MP = ["", "AKI", "CEH", "VBE", "VBM", "CORK", "PRSV", "EMP", "SRK", "PR78", "STP", "OFF", "CON"]
WAT = ["WAT", "WAR", "WWP", "WZD", ""]
DIEL = ["WJNR", "WJNG", "WSV14", "WF97", "", ""]
TRIPLE = {"NEA_HGK": (-56279.9, -68766.44, 15.1386, -67921.9, -55434.49), "HKF_HGK_1974": (-56290.0, -68767.0, 15.1320, -67887.0, -55415.0), "NEA_IAPWS": (-56279.9, -68766.76, 15.1374, -67922.22, -55434.49)}
# arithmetic on properties keeps the derivatives: value, d/dT, d/dP


class TP:
    """a property as the models report it: value and the derivative members"""
    def __init__(s, v, t, p): s.v, s.t, s.p = X.w(v), X.w(t), X.w(p)
    def __add__(s, o): o = tp(o); return TP(s.v + o.v, s.t + o.t, s.p + o.p)
    def __sub__(s, o): o = tp(o); return TP(s.v - o.v, s.t - o.t, s.p - o.p)
    def __mul__(s, o): o = tp(o); return TP(s.v * o.v, s.t * o.v + s.v * o.t, s.p * o.v + s.v * o.p)
    def __truediv__(s, o): o = tp(o); return TP(s.v / o.v, (s.t * o.v - s.v * o.t) / (o.v * o.v), (s.p * o.v - s.v * o.p) / (o.v * o.v))


def tp(o): return o if isinstance(o, TP) else TP(o, 0, 0)


def model(name, *args, props=PR):
    a = [X.w(x) for x in args]
    return {k: TP(uf(name + ":" + k, *a), uf(name + ":" + k + "_T", *a), uf(name + ":" + k + "_P", *a)) for k in props}


def chain(name, T, P, tps, *more): return model(name, T, P, *([tps[k].v for k in PR] + list(more)))


def zero(): return {k: TP(0, 0, 0) for k in PR}
def ref(p): return {k: TP(var(p + k), 0, 0) for k in PR}


def water(ch, T, P, solv, state, p0):
    """(density, pressure) of the solvent"""
    w = WAT[ch["wat"]]
    if not w: return c(0), P
    Ps = uf("Psat:" + w, T) if p0 and w != "WZD" else P
    return uf("%s:%s:%d:density" % (w, solv, state), T, Ps), Ps


def epsilon(ch, T, P, solv, state, p0):
    m = DIEL[ch["diel"]]
    rho, Ps = water(ch, T, P, solv, state, p0)
    if not m: return c(0), Ps
    a = (T, Ps, rho) if m == "WJNR" else (T, Ps)
    return uf("%s:%s:%d:epsilon" % (m, solv, state), *a), Ps


def waterprops(ch, T, P, sym, state, triple, p0, vap=False):
    w = WAT[ch["wat"]]
    Ps = uf("Psat:" + w, T) if p0 and w != "WZD" else P
    if w == "WZD": return model("WZD:%s:%d" % (sym, state), T, P), P
    return model("%s:%s:%d:%s" % (w, sym, state, triple), T, Ps), Ps


def expected(ch):
    T, p0 = var("T"), ch["p0"]
    P = c(0) if p0 else var("P")
    solv = "Water" if ch["alt"] else "H2O@"
    st = ch["vapor"]
    trn = ["HKF_HGK_1974", "NEA_HGK", "HKF_HGK_1974", "NEA_IAPWS"][ch["triple"]]
    who = ch["who"]
    if who == 1: return zero(), P
    Pw = P
    if who in (2, 3):
        sym = solv if who == 2 else "V"
        isCON = who == 2 and ch["diel"] == 5
        if isCON: t = ref("w")
        elif not WAT[ch["wat"]]:
            if who == 2 and ch["diel"] == 4: t = model("CPT:" + sym, T, P)
            else: t = zero()
        else: t, Pw = waterprops(ch, T, P, sym, st if who == 2 else 1, trn, p0)
        if who == 2:
            if ch["conv"] & 2:
                for k, v in zip(("G", "H", "S", "U", "A"), TRIPLE[trn]): t[k] = t[k] - c(Decimal(str(v)) * Decimal("4.184"))
            return t, Pw
    else:
        e, mt, mp = EOS[ch["eos"]], MT[ch["mt"]], MP[ch["mp"]]
        reacdc = (not e and not mt and mp in ("", "CON"))
        wTr, wPr = var("wTr"), var("wPr")
        rho, Pw1 = water(ch, T, P, solv, st, p0)
        if e == "CON" or reacdc: t = ref("r")
        elif e == "CPT": t = model("CPT:X", T, P)
        elif e in ("HKF", "HKFR"):
            eps, Pw = epsilon(ch, T, P, solv, st, p0)
            t = model(e + ":X", T, Pw, rho, eps)
        elif e in ("HP98", "AN91"):
            rr, _ = water(ch, wTr, wPr, solv, st, False)
            Pw = Pw1
            t = model(e + ":X", T, Pw, rr, rho)
        else: t = zero()
        if ch["fall"] and e == "CPT":
            for k in ("H", "V"): t[k] = tp(0)
        if e != "CON" and not reacdc:
            if mt == "CHP": t = chain("CHP:X", T, Pw, t)
            elif mt == "CST" and e != "CPT": t = model("CST:X", T, Pw)
            if mp == "AKI":
                wt, Pa = waterprops(ch, T, Pw, solv, st, trn, p0) if WAT[ch["wat"]] else ((model("CPT:" + solv, T, P) if ch["diel"] == 4 else zero()), Pw)
                if ch["diel"] == 5: wt = ref("w")
                wr, _ = waterprops(ch, wTr, wPr, solv, st, trn, False) if WAT[ch["wat"]] else ((model("CPT:" + solv, wTr, wPr) if ch["diel"] == 4 else zero()), None)
                if ch["diel"] == 5: wr = ref("w")
                if ch["conv"] & 2:
                    g = c(Decimal(str(TRIPLE[trn][0])) * Decimal("4.184"))
                    wt, wr = dict(wt, G=wt["G"] - g), dict(wr, G=wr["G"] - g)
                Pw = Pw1 if p0 else Pw
                ig, igr = model("WIG:" + solv, T, Pw), model("WIG:" + solv, wTr, wPr)
                rr, _ = water(ch, wTr, wPr, solv, st, False)
                t = chain("AKI:X", T, Pw, t, wt["G"].v, ig["G"].v, rho, wr["G"].v, igr["G"].v, rr)
            elif mp: t = chain(mp + ":X", T, Pw, t)
    if ch["conv"] & 1 and who != 2:
        S = var("entropy_Na") + var("entropy_Cl")
        t["G"] = t["G"] - var("xTr") * S
    return t, Pw


def undefined(ch):
    """properties that stay undefined (before fallback)"""
    who, e, mt, mp = ch["who"], EOS[ch["eos"]], MT[ch["mt"]], MP[ch["mp"]]
    if who == 1: return set()
    if who == 2: return set() if WAT[ch["wat"]] or ch["diel"] >= 4 else set(PR)
    if who == 3: return set() if WAT[ch["wat"]] else set(PR)
    if mp or mt or e in ("CON", "HKF", "HKFR", "HP98", "AN91"): 
        return set()
    if e == "CPT": return {"H", "V"} if ch["fall"] else set()
    return set()


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    t, P = expected(ch)
    un = undefined(ch)
    if ch["conv"] & 1 and ch["who"] != 2 and not un: pass
    r = "w" if ch["who"] == 2 else "r"
    for k in PR:
        e = t[k]
        if k in un and ch["fall"]: e = TP(var(r + k), 0, 0)
        if k in un and not ch["fall"]: continue
        obs += [Eq(k, out(k), e.v), Eq(k + " temperature derivative member", out(k + "_T"), e.t), Eq(k + " pressure derivative member", out(k + "_P"), e.p)]
        obs.append(Fact(k + " is defined", p.ints[k + "_sta"] != 0, "status %d" % p.ints[k + "_sta"]))
    if not ch["fall"]:
        for k in un: obs.append(Fact(k + " stays undefined", p.ints[k + "_sta"] == 0, "status %d" % p.ints[k + "_sta"]))
    obs.append(Eq("pressure handed back", out("Pout"), P))
    if ch["solv"]:
        T, p0, solv = var("T"), ch["p0"], "Water" if ch["alt"] else "H2O@"
        P0 = c(0) if p0 else var("P")
        st = ch["state"] - 1 if ch["state"] else ch["vapor"]
        rho, Pr = water(ch, T, P0, solv, st, p0)
        eps, Pe = epsilon(ch, T, P0, solv, st, p0)
        obs += [Eq("solvent density", out("density"), rho), Eq("dielectric constant", out("epsilon"), eps), Eq("solvent pressure handed back", out("Pout2"), Pr), Eq("pressure handed back by the dielectric model", out("Pout3"), Pe)]
    return obs


VARS = {"T": (250, 1500), "P": (1e5, 1e9), "wTr": (280, 300), "wPr": (0.9e5, 1.1e5), "xTr": (290, 310), "xPr": (1e5, 2e5), "entropy_Na": (10, 100), "entropy_Cl": (10, 100)}
for k in PR: VARS["w" + k] = VARS["r" + k] = (-1e5, 1e5)

SRC = ["ThermoEngine.cpp", "Substance.cpp", "Reaction.cpp", "Database.cpp", "Element.cpp", "Common/Exception.cpp"]
H = ["engine.cpp", "models_uf.cpp", "stub_json.cpp"]
DEF = dict(eos=[0], mt=[0], mp=[0], alt=[0], wat=[0], diel=[0], triple=[0], who=[0], conv=[0], fall=[0], p0=[0], byobj=[0], solv=[0], state=[0], vapor=[0])


def grp(name, flt=None, **kw):
    chs = dict(DEF)
    chs.update(kw)
    return Group(name, SRC, H, VARS, obligations, choices=chs, defs=["MODE=0"], choice_filter=flt, max_paths=20)


def runner():
    g = [
        grp("methods", eos=range(7), mt=range(3), mp=range(13), conv=[0, 3]),
        grp("methods at saturation", eos=[2, 3, 4, 5, 6], mt=[0, 1, 2], mp=[0, 1, 2, 12], p0=[1], wat=[0, 1, 3]),
        grp("fallback", eos=[0, 1, 2, 3], mt=[0], mp=[0, 2, 12], fall=[1], conv=[0, 1], byobj=[0, 1]),
        grp("water", who=[2, 3], wat=range(5), diel=range(6), triple=range(4), conv=range(4), vapor=[0, 1], p0=[0, 1], flt=lambda c_: c_["who"] == 2 or c_["diel"] in (0, 5)),
        grp("hydrogen", who=[1], eos=range(7), mp=[0, 2], conv=range(4), p0=[0, 1]),
        grp("solvent", eos=[3], wat=range(5), diel=range(6), solv=[1], state=range(3), vapor=[0, 1], p0=[0, 1], alt=[0, 1]),
    ]
    return Runner("E01", g, bounds=["one substance and one solvent; all combinations of the listed methods, water/dielectric models, conventions and pressure zero / positive"])
