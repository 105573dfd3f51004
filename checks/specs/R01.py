"""log K(T) models of reactions."""
from .common import *
import functools
Eq = functools.partial(Eq, tol=1e-8, vtol=1e-7)

META = dict(
    title="log K(T) models: G, H, S, Cp and K of a reaction are one function of temperature",
    statement="For reactions with log K(T) coefficients, with Cp(T) coefficients and reference H and S, or with the two- and three-term (constant H; constant Cp) approximations: log K equals the documented function, ln K = ln(10) log K, G = -RT ln K, H = RT^2 d(ln K)/dT, G = H-TS and, for the log K(T), Cp(T) and three-term models, Cp = dH/dT and T dS/dT = Cp; V is the reference volume, U=H-PV and A=U-TS. At the reference temperature H and S are the reference values. Of H, S and G either all or any two may be given. The one-term approximations keep log K (resp. G) constant. The log K(T) coefficients derived for the two- and three-term approximations give the same log K at every temperature.",
    over=["inputs"], qtext="all temperatures, pressures, coefficients and reference properties within the stated ranges, either side of the reference temperature",
    why="No stable test evaluates a reaction model; consistency is a statement over all coefficients and temperatures.",
    files=["ThermoFun/Reactions/LogK_function_of_T.cpp", "ThermoFun/ThermoModelsReaction.cpp", "ThermoFun/Reaction.cpp"],
    mech=[("log K, G, H, S, Cp from coefficients", "ThermoFun/Reactions/LogK_function_of_T.cpp: thermoPropertiesReaction_LogK_fT"), ("choice of approximation", "LogK_function_of_T.cpp: determineMethod"), ("coefficients of an approximation", "ThermoFun/Reaction.cpp: calc_logK_fT_coefficients")],
    observe=["Reaction_LogK_fT::thermoProperties", "Reaction::calc_logK_fT_coefficients"],
    note="H and S of the one-term approximations and Cp of the two-term one are the reference values (observed, not claimed). Cp(T) and log K(T) coefficients given together are outside.")

A_S = [30, 1e-3, 5e3, 5, 1e5, 1e-6, 100]
C_S = [200, 0.1, 1e6, 1e3, 1e-5]
BASE = {"T": (280, 1200), "P": (1, 5000), "Tr": (290, 310), "rH": (-2e5, 2e5), "rS": (-300, 300), "rG": (-2e5, 2e5), "rCp": (-300, 300), "rlogK": (-30, 30), "rV": (-10, 10)}
R, LN10 = c("8.31451"), c("2.302585093")


def vars_(ch):
    v = dict(BASE)
    m = ch["model"]
    if m == 0: v.update({"a%d" % i: (-s, s) for i, s in enumerate(A_S)})
    if m == 1: v.update({"c%d" % i: (-s, s) for i, s in enumerate(C_S)})
    return v


def init(ch): return {"T": 450, "P": 300, "Tr": 298.15}


def lgk(T, a): return a[0] + a[1] * T + a[2] / T + a[3] * log(T) + a[4] / (T * T) + a[5] * T * T + a[6] / sqrt(T)
def cp(T, k): return k[0] + k[1] * T + k[2] / (T * T) + k[3] / sqrt(T) + k[4] * T * T
def icp(T, k): return k[0] * T + k[1] * T * T / c(2) - k[2] / T + c(2) * k[3] * sqrt(T) + k[4] * T ** 3 / c(3)
def icpt(T, k): return k[0] * log(T) + k[1] * T - k[2] / (c(2) * T * T) - c(2) * k[3] / sqrt(T) + k[4] * T * T / c(2)


def reference(ch):
    """H and S at the reference temperature: given, or from the other two"""
    H, S, G, Tr = var("rH"), var("rS"), var("rG"), var("Tr")
    if not ch["has"] & 1: H = G + Tr * S
    if not ch["has"] & 2: S = (H - G) / Tr
    return H, S


def identities(T, P, hs=True, cpid=True):
    o = out
    obs = [Eq("lnK=ln(10)logK", o("lnK"), LN10 * o("logK")), Eq("G=-RT lnK", o("G"), -R * T * o("lnK")), Eq("V", o("V"), var("rV"))]
    if hs: obs += [Eq("H=RT^2 dlnK/dT", o("H"), R * T * T * d(o("lnK"), "T")), Eq("G=H-TS", o("G"), o("H") - T * o("S"))]
    if cpid: obs += [Eq("Cp=dH/dT", o("Cp"), d(o("H"), "T")), Eq("TdS/dT=Cp", T * d(o("S"), "T"), o("Cp"))]
    if hs: obs += [Eq("U=H-PV", o("U"), o("H") - P * o("V")), Eq("A=U-TS", o("A"), o("U") - T * o("S"))]
    return obs


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    m, o = ch["model"], out
    T, P, Tr = var("T"), var("P"), var("Tr")
    if m in (0, 1, 4, 5) and p.ints["U_sta"] != 2: return obs   # H exactly zero: U and A are left undefined
    if m == 0:
        return obs + identities(T, P) + [Eq("logK", o("logK"), lgk(T, [var("a%d" % i) for i in range(7)]))]
    H0, S0 = reference(ch)
    if m == 1:
        k = [var("c%d" % i) for i in range(5)]
        obs += identities(T, P) + [Eq("Cp", o("Cp"), cp(T, k)), Eq("H", o("H"), H0 + icp(T, k) - icp(Tr, k)), Eq("S", o("S"), S0 + icpt(T, k) - icpt(Tr, k))]
        return obs
    at = p.inputs["T"] == p.inputs["Tr"]
    if m == 2: return obs + identities(T, P, False, False) + [Eq("logK constant", o("logK"), var("rlogK"))]
    if m == 3: return obs + identities(T, P, False, False) + [Eq("G constant", o("G"), var("rG"))]
    if m == 4 or (m == 5 and not ch["cp"]): obs += identities(T, P, True, False) + [Eq("H", o("H"), H0), Eq("S", o("S"), S0)]
    else:
        C = var("rCp")
        obs += ([x for x in identities(T, P) if x.lhs is not None]) + [Eq("H", o("H"), H0 + C * (T - Tr)), Eq("S", o("S"), S0 + C * log(T / Tr)), Eq("Cp", o("Cp"), C)]
    if ch["has"] & 3 == 3 and (m == 4 or ch["cp"]): obs.append(Eq("coefficients give the same logK", lgk(T, [out("c%d" % i) for i in range(7)]), o("logK")))
    return obs


SRC = ["Reactions/LogK_function_of_T.cpp", "Reactions/FrantzMarshall.cpp", "Reactions/RyzhenkoBryzgalyn.cpp", "Reactions/DolejsManning2010.cpp", "ThermoModelsReaction.cpp", "Reaction.cpp", "Common/Exception.cpp"]
HN = ["reaction.cpp", "stub_json.cpp"]


def flt(ch):
    m, h = ch["model"], ch["has"]
    if m == 0: return h == 7 and ch["cp"] == 0
    if m in (1, 4): return h in (3, 5, 6, 7) and ch["cp"] == 0
    if m == 2: return h in (0, 7) and ch["cp"] == 0
    if m == 3: return h in (4, 7) and ch["cp"] == 0
    return h in (3, 5, 6, 7)


def runner():
    g = Group("logK", SRC, HN, vars_, obligations, choices={"model": range(6), "has": [0, 3, 4, 5, 6, 7], "cp": 2}, choice_filter=flt, init=init)
    return Runner("R01", [g], bounds=["280..1200 K, 1..5000 bar, reference temperature 290..310 K, coefficients and reference properties within ranges of published data"])
