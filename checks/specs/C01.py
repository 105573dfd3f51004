"""Heat-capacity integration."""
from fractions import Fraction as F
from engine.vc import *

META = dict(
    title="Heat-capacity integration: G, H, S are the exact integrals of the Cp polynomial",
    statement="For every reference state and every piecewise 10-coefficient heat-capacity polynomial, the computed Cp is the polynomial of the interval that contains the temperature, and S, H and G are the reference values plus the exact integrals of Cp/T, Cp and -S from the reference temperature, including the entropy, enthalpy and volume jump of each phase transition passed on the way. The same holds for the constant-Cp model, so that -dG/dT=S, dH/dT=Cp and T dS/dT=Cp at every temperature. At the reference temperature the reference properties are returned.",
    over=["inputs"], qtext="all temperatures, reference states, coefficients and interval bounds within the stated ranges, up to three intervals, including temperatures equal to the reference temperature or to an interval bound",
    why="No stable test integrates a heat capacity; the closed forms must hold for all ten coefficients and every placement of the temperature among the intervals.",
    files=["ThermoFun/Substances/EmpiricalCpIntegration.cpp", "ThermoFun/Substances/StandardEntropyCpIntegration.cpp"],
    mech=[("interval selection and polynomial integration", "ThermoFun/Substances/EmpiricalCpIntegration.cpp"), ("constant Cp from entropy", "ThermoFun/Substances/StandardEntropyCpIntegration.cpp")],
    observe=["EmpiricalCpIntegration::thermoProperties", "EntropyCpIntegration::thermoProperties"])

# Cp = sum c_i T^e_i
EXPO = [F(0), F(1), F(-2), F(-1, 2), F(2), F(3), F(4), F(-3), F(-1), F(1, 2)]
VARS = {"G0": (-2e6, 1e5), "H0": (-2e6, 1e5), "S0": (-100, 500), "Cp0": (1, 500), "V0": (0, 50), "Tr": (200, 400), "T": (150, 2500)}
SCALE = [1e2, 1e-2, 1e6, 1e3, 1e-5, 1e-8, 1e-11, 1e8, 1e3, 1.0]


def vars_(ch):
    v = dict(VARS)
    n = ch["n"]
    for i in range(n + 1): v["B%d" % i] = (150, 2500)
    for i in range(n):
        for j in range(LEN[ch['lens']][i]): v["c%d_%d" % (i, j)] = (-SCALE[min(j, 9)], SCALE[min(j, 9)])
        if i: v["dS%d" % i], v["dH%d" % i], v["dV%d" % i] = (-20, 20), (-2e4, 2e4), (-2, 2)
    return v


def init(ch):
    n = ch["n"]
    d = {"Tr": 298.15, "T": 250 + 200}
    for i in range(n + 1): d["B%d" % i] = 200 + 300.0 * i
    return d


LEN = [[10, 10, 10], [10, 3, 6], [3, 12, 1]]


def ncoef(ch, i): return min(10, LEN[ch["lens"]][i])


def cp(ch, i, T): return sum((var("c%d_%d" % (i, j)) * T ** EXPO[j] if EXPO[j] else var("c%d_%d" % (i, j)) for j in range(ncoef(ch, i))), c(0))


def integ(ch, i, lo, hi, shift):
    """integral of Cp*T^shift between lo and hi"""
    s = c(0)
    for j in range(ncoef(ch, i)):
        e = EXPO[j] + shift + 1
        a = var("c%d_%d" % (i, j))
        s = s + (a * (log(hi) - log(lo)) if e == 0 else a * (hi ** e - lo ** e) / c(e))
    return s


def obligations(p, ctx, ch):
    obs = [Fact("returns normally", p.status == "ok", "run ended with " + p.status, lambda n: n.status != "ok")]
    if p.status != "ok": return obs
    n, at = ch["n"], ch["at"]
    Tr = var("Tr")
    T = Tr if at == 1 else var("B%d" % (at - 1)) if at >= 2 else var("T")
    G0, H0, S0 = var("G0"), var("H0"), var("S0")
    if n == 0:
        C = var("Cp0")
        S = S0 + C * (log(T) - log(Tr))
        H = H0 + C * (T - Tr)
        obs += [Eq("Cp", out("Cp"), C), Eq("S", out("S"), S), Eq("H", out("H"), H), Eq("G", out("G"), G0 - S0 * (T - Tr) + C * (T - Tr) - T * C * (log(T) - log(Tr)))]
        if at == 0:
            obs += [Eq("dG/dT=-S", d(out("G"), "T"), -out("S")), Eq("dH/dT=Cp", d(out("H"), "T"), out("Cp"))]
        return obs
    # the interval the concrete temperature of this path lies in
    val = lambda x: p.inputs[x.a[0]]
    if at == 0: k = max(i for i in range(n) if val(var("B%d" % i)) <= val(T))
    elif at == 1: k = 0
    else: k = min(at - 1, n - 1)
    S, H, V = S0, H0, c(0)
    G = G0
    for j in range(k + 1):
        lo = Tr if j == 0 else var("B%d" % j)
        hi = T if j == k else var("B%d" % (j + 1))
        if j and ch["tr"] != j:
            dH, dV = ("dH%d" % j, "dV%d" % j)
            S, H, V = S + var("dS%d" % j), H + (var(dH) if ch["tr"] != 4 else c(0)), V + (var(dV) if ch["tr"] < 3 else c(0))
        # G(hi) = G(lo) - S(lo) (hi-lo) - int_lo^hi int_lo^t Cp/t' dt' dt
        G = G - S * (hi - lo) - (hi * integ(ch, j, lo, hi, -1) - integ(ch, j, lo, hi, 0))
        S = S + integ(ch, j, lo, hi, -1)
        H = H + integ(ch, j, lo, hi, 0)
    obs += [Eq("Cp", out("Cp"), cp(ch, k, T)), Eq("S", out("S"), S), Eq("H", out("H"), H), Eq("G", out("G"), G), Eq("V", out("V"), V)]
    if at == 0:
        obs += [Eq("dG/dT=-S", d(out("G"), "T"), -out("S")), Eq("dH/dT=Cp", d(out("H"), "T"), out("Cp")), Eq("TdS/dT=Cp", T * d(out("S"), "T"), out("Cp"))]
    return obs


def ok(ch):
    if ch["at"] > (1 if ch["n"] == 0 else ch["n"] + 1): return False
    if ch["n"] < 2: return ch["tr"] == 0 and (ch["n"] == 1 or ch["lens"] == 0)
    return (ch["tr"] == 0 or ch["lens"] == 0) and not (ch["n"] == 2 and ch["tr"] in (1, 2))


def runner():
    src = ["Substances/EmpiricalCpIntegration.cpp", "Substances/StandardEntropyCpIntegration.cpp", "Substance.cpp", "Common/Exception.cpp"]
    g = Group("cp", src, ["cp.cpp", "stub_json.cpp"], vars_, obligations, choices={"n": 4, "at": 5, "lens": 3, "tr": 5}, init=init, choice_filter=ok, maxdec=200)
    return Runner("C01", [g], bounds=["1 to 3 Cp intervals, 10 coefficients each (and lists of 1 to 12), all symbolic; a transition at every bound or at some of them", "temperatures 150..2500 K inside the union of the intervals"])
