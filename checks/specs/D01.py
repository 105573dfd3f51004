"""Histories of a database."""
import functools
from .common import *
Eq = functools.partial(Eq, tol=1e-12, vtol=1e-12)

META = dict(
    title="A database gives back the record that was last put under a symbol",
    statement="After any history of operations a database contains exactly the records put into it, and each of them gives back the numbers of the record last put under its symbol: adding a record does not replace one of the same symbol, setting, appending text or a file, and replacing the map do; records of other symbols and of the other two kinds do not change. All ways to read it (by symbol, all records, the map, the list of symbols, the number, membership) agree. A copy or an assigned database and the original do not influence each other, nor does an object after it was put in. Reading a symbol that is not there and appending a file that does not exist raise an error and change nothing. The elemental entropy of a formula is made of the present records of the elements.",
    over=["histories", "inputs"], qtext="all histories of three operations out of fifteen on an empty database and of two on a filled one, for each of the three kinds of records; all values of the numbers of the records",
    why="Every calculation starts from what the database gives back; the tests load one file and read it.",
    files=["ThermoFun/Database.cpp", "ThermoFun/Substance.cpp", "ThermoFun/Reaction.cpp", "ThermoFun/Element.cpp"],
    mech=[("records by symbol", "ThermoFun/Database.cpp: addX, setX, addMapX, X, getX"), ("text and files", "ThermoFun/Database.cpp: addRecord, fromFile, fromJSONs, appendData"), ("elements of formulas", "ThermoFun/Database.cpp: setDBElement, elementalEntropyFormula")],
    observe=["Database::getSubstance", "Database::getReaction", "Database::getElement", "Database::mapSubstances", "Database::elementalEntropyFormula"],
    note="The parser of a single record is replaced by one that reads a symbol and the name of a free value (J01 decides the real one); the formula parser (ChemicalFun, not available here) by a small one. The elemental entropy is not claimed after an element was changed through a reference, nor for elements that a replaced map no longer contains.")

PRE = "sre"
FN = [0] * 16
NOPS = 16


def model(ch):
    """records of the chosen kind, and whether formulas see them"""
    m = {"A": {0: "s0", 1: "r0", 2: "e0"}[ch["kind"]]} if ch["start"] else {}
    f = dict(m)
    for s in (1, 2, 3):
        o, a, b = ch["op%d" % s], "v%da" % s, "v%db" % s
        add = lambda k, v: m.setdefault(k, v)
        if o == 1 or o == 4 or o == 15: add("A", a); f["A"] = m["A"]
        elif o == 2: add("B", a); f["B"] = m["B"]
        elif o == 3: m["A"] = f["A"] = a
        elif o == 5: m["B"] = f["B"] = a
        elif o in (6, 7, 8):
            m["A"] = a
            if o > 6: m["B" if o == 7 else "C"] = b
            f.update(m)
        elif o == 9: m = {"B": a, "C": b}; f = {**{k: None for k in f}, **m}
        elif o == 10: m["A"] = a; f["A"] = None
    return m, f


def keep(ch):
    o = [ch["op%d" % s] for s in (1, 2, 3)]
    if ch["start"] and o[0]: return False   # two operations on the filled database
    if 0 in o: return o[0] == 0 and (o[1] == 0 or o[2] != 0)   # fewer operations come last
    if ch["kind"] == 1 and (o[0] in (11, 13, 14) or o[1] in (13, 14)): return False
    return True


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    I, S = p.ints, p.strs
    obs.append(Fact("no error", not I.get("raised"), "an exception was thrown: %s" % S.get("what"), lambda n: n.ints.get("raised")))
    if I.get("raised"): return obs
    obs.append(Fact("missing symbols and files raise", not I.get("noraise"), "no error", lambda n: n.ints.get("noraise")))
    obs.append(Fact("a copy keeps what is put into it", not I.get("lost"), "lost", lambda n: n.ints.get("lost")))
    m, f = model(ch)
    first = {0: "s0", 1: "r0", 2: "e0"}
    for k in range(3):
        w = m if k == ch["kind"] else {"A": first[k]} if ch["start"] else {}
        q = PRE[k]
        keys = sorted(w)

        def i_(n, v): obs.append(Fact(q + n, I.get(q + n) == v, "%s, not %s" % (I.get(q + n), v), lambda nn: nn.ints.get(q + n) != v))

        def s_(n, v): obs.append(Fact(q + n, S.get(q + n) == v, "%s, not %s" % (S.get(q + n), v), lambda nn: nn.strs.get(q + n) != v))
        i_("n", len(w)); i_("has", int("A" in w)); i_("z", 0)
        s_("list", "".join(x + "," for x in keys)); s_("all", "".join(x + "," for x in keys)); s_("map", "".join("%s=%s," % (x, x) for x in keys))
        if S.get(q + "list") != "".join(x + "," for x in keys): continue
        for x in keys:
            s_("sym" + x, x)
            for n in ("", "all", "map"): obs.append(Eq("value of %s (%s%s)" % (x, q, n), out(q + n + x), var(w[x])))
    if ch["kind"] != 2: f = {"A": "e0"} if ch["start"] else {}
    val = {}
    for x in "ABC":
        if x in f and f[x] is None: continue
        val[x] = var(f[x]) if x in f else c(0)
        obs.append(Eq("elemental entropy of " + x, out("entropy" + x), val[x]))
    if len(val) == 3: obs.append(Eq("elemental entropy of A2B3(AC)2", out("formula"), c(4) * val["A"] + c(3) * val["B"] + c(2) * val["C"]))
    if "A" in f and f["A"]:
        obs.append(Fact("elements of a formula", I.get("nform") == 1, "%s" % I.get("nform"), lambda n: n.ints.get("nform") != 1))
        if I.get("nform") == 1: obs += [Eq("coefficient in the formula", out("formcoef"), c(2)), Eq("element of the formula", out("formval"), val["A"])]
    return obs


def mkvars(ch): return {**{"v%d%s" % (s, x): (1, 100) for s in (1, 2, 3) for x in "ab"}, "s0": (1, 100), "r0": (1, 100), "e0": (1, 100)}


GROUPS = [Group("history", ["Database.cpp", "Substance.cpp", "Reaction.cpp", "Element.cpp", "Common/Exception.cpp"], ["database.cpp"], vars=mkvars, obligations=obligations, choices={"kind": 3, "start": 2, "op1": 16, "op2": 16, "op3": 16}, choice_filter=keep)]


def runner():
    return Runner("D01", GROUPS, bounds=["three operations, three symbols", "values between 1 and 100"])
