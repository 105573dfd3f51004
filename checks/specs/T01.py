"""Arithmetic on values that carry temperature and pressure derivatives and an uncertainty."""
from fractions import Fraction as F
from engine.vc import *

META = dict(
    title="Derivative-carrying numbers obey the chain rule and propagate status and error",
    statement="Every arithmetic operation, elementary function and comparison on property values acts on the values as on plain numbers, returns as temperature and pressure derivatives of the result those given by the chain rule, and as uncertainty the first-order (root-sum-of-squares) propagated one, also when a value is zero wherever that is defined. The result is marked undefined exactly when an operand is undefined, and adding or scaling by a plain number keeps it defined.",
    over=["inputs"], qtext="all finite operand values, derivatives, uncertainties and plain numbers inside the domain of the operation, all operand statuses, every operator overload (value-value, value-number, number-value, compound assignment), sqrt, pow, exp, log, log10",
    why="The unit tests evaluate a few models at a few state points and never look at the derivative or status members of an expression; the overload set has about 30 members with special cases at zero.",
    files=["ThermoFun/Common/ThermoScalar.hpp"],
    mech=[("operator overloads and elementary functions of ThermoScalarBase", "ThermoFun/Common/ThermoScalar.hpp")],
    observe=["val, ddt, ddp, err, sta of results"])

A, Bv, C = var("a"), var("b"), var("c")
LN10 = c(2.302585092994046)


def sq(e): return e * e


OPS = {
    0: lambda: A + Bv, 1: lambda: A - Bv, 2: lambda: A * Bv, 3: lambda: A / Bv, 4: lambda: A + Bv, 5: lambda: A - Bv, 6: lambda: A * Bv, 7: lambda: A / Bv,
    8: lambda: A + C, 9: lambda: A + C, 10: lambda: A - C, 11: lambda: C - A, 12: lambda: A * C, 13: lambda: A * C, 14: lambda: A / C, 15: lambda: C / A,
    16: lambda: A + C, 17: lambda: A - C, 18: lambda: A * C, 19: lambda: A / C, 20: lambda: -A, 21: lambda: sqrt(A), 22: None, 23: None, 24: lambda: exp(A), 25: lambda: log(A),
    26: lambda: log(A) / LN10, 27: lambda: C, 28: lambda: A, 29: lambda: A * A, 30: lambda: A * Bv, 31: lambda: A}
TWO = {0, 1, 2, 3, 4, 5, 6, 7, 23}
POS = {21, 22, 23, 25, 26}
NZ = {3: "b", 7: "b", 14: "c", 15: "a", 19: "c"}


def vars_(ch):
    op = ch["op"]
    r = (0.01, 50) if op in POS else (-50, 50)
    v = {"a": r, "at": (-9, 9), "ap": (-9, 9), "ae": (0, 5), "b": (-50, 50), "bt": (-9, 9), "bp": (-9, 9), "be": (0, 5)}
    if op == 23: v["b"] = (-3, 3)
    if op in (8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 22, 27, 31): v["c"] = (-3, 3)
    if op in NZ: v[NZ[op]] = (0.01, 50) if ch["neg"] == 0 else (-50, -0.01)
    return v


def obligations(p, ctx, ch):
    op = ch["op"]
    if p.status != "ok": return [Fact("returns normally", False, "run ended with " + p.status)]
    obs = []
    at, ap, bt, bp, ae, be = var("at"), var("ap"), var("bt"), var("bp"), var("ae"), var("be")
    inp = p.inputs
    undef = ch["sa"] == 0 or (op in TWO and ch["sb"] == 0)
    if op == 31:
        a, b, k = inp["a"], inp["b"], inp["c"]
        for n, x, y in (("", a, b), ("c", a, k), ("r", k, a)):
            want = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}
            for m, w in want.items():
                obs.append(Fact("comparison " + n + m, p.ints[n + m] == int(w), "%s(%r, %r) gave %d" % (n + m, x, y, p.ints[n + m]), lambda nn, m=n + m, w=w: nn.ints[m] != int(w)))
        return obs
    if op == 30:
        return [Eq("T", out("Tv"), A), Eq("P", out("Pv"), Bv), Eq("TT", out("Tt"), c(1)), Eq("TP", out("Tp"), c(0)), Eq("PT", out("Pt"), c(0)), Eq("PP", out("Pp"), c(1)),
                Eq("v", out("v"), A * Bv), Eq("t", out("t"), Bv), Eq("p", out("p"), A)]
    if op == 27:
        return [Eq("v", out("v"), C), Eq("t", out("t"), c(0)), Eq("p", out("p"), c(0)), Eq("e", out("e"), c(0)), Fact("assigned status", p.ints["sta"] == 3, "status %d" % p.ints["sta"], lambda n: n.ints["sta"] != 3)]
    if op == 22:
        # v = a^c: log v = c log a
        v = exp(C * log(A))
        da, db = C * v / A, None
    elif op == 23:
        v = exp(Bv * log(A))
        da, db = Bv * v / A, v * log(A)
    else:
        v = OPS[op]()
        one = c(1)
        da, db = {0: (one, one), 1: (one, -one), 2: (Bv, A), 3: (one / Bv, -A / (Bv * Bv)), 4: (one, one), 5: (one, -one), 6: (Bv, A), 7: (one / Bv, -A / (Bv * Bv)),
                  8: (one, None), 9: (one, None), 10: (one, None), 11: (-one, None), 12: (C, None), 13: (C, None), 14: (one / C, None), 15: (-C / (A * A), None),
                  16: (one, None), 17: (one, None), 18: (C, None), 19: (one / C, None), 20: (-one, None), 21: (c(F(1, 2)) / sqrt(A), None), 24: (exp(A), None), 25: (one / A, None),
                  26: (one / A / LN10, None), 28: (one, None), 29: (c(2) * A, None)}[op]
    obs += [Eq("value", out("v"), v),
            Eq("temperature derivative", out("t"), da * at + (db * bt if db is not None else c(0))),
            Eq("pressure derivative", out("p"), da * ap + (db * bp if db is not None else c(0)))]
    obs.append(Eq("uncertainty", sq(out("e")), sq(da * ae) + (sq(db * be) if db is not None else c(0))))
    obs.append(Cond("uncertainty is not negative", lambda t: t["e"] >= 0, ["e"]))
    if op == 28 or op in (16, 17, 18, 19): want = lambda s: s == ch["sa"] or (s == 2 and ch["sa"] != 0)
    elif undef: want = lambda s: s == 0
    else: want = lambda s: s != 0
    obs.append(Fact("status", want(p.ints["sta"]), "operand statuses %d,%d gave %d" % (ch["sa"], ch["sb"], p.ints["sta"]), lambda n: not want(n.ints["sta"])))
    return obs


def cf(ch):
    if ch["neg"] and ch["op"] not in NZ: return False
    if ch["op"] in TWO: return (ch["sa"], ch["sb"]) in ((1, 1), (2, 2), (0, 2), (2, 0), (0, 0), (5, 3))
    return ch["sb"] == 2 and ch["sa"] in (0, 2, 5)


def runner():
    g = Group("ops", [], "scalar.cpp", vars_, obligations, choices={"op": 32, "sa": 6, "sb": 6, "neg": 2}, choice_filter=cf, max_eq=2)
    return Runner("T01", [g], bounds=["operand magnitudes up to 50, divisors and radicands at least 0.01 in magnitude"])
