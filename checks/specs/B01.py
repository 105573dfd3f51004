"""Batch calculations and their tables."""
from .common import *

META = dict(
    title="Batch results are the properties of their symbol at their own T and P",
    statement="For every form of a ThermoBatch request (one state, list of states, temperatures times pressures in both orders, increments, properties provided by the caller) and both loop orders, each number returned, and each cell of the CSV, transposed and property-grid tables, is the requested property of the symbol of its row or column at the temperature and pressure of its row or column, converted to the requested unit and written with the requested digits; undefined properties and states that were not calculated are written as NaN; a zero pressure is replaced by the saturation pressure; increments stay inside their range; nothing of an earlier request remains.",
    over=["inputs", "configurations", "histories"], qtext="all temperatures, pressures and property values, for up to three symbols, five properties and six states; substances, reactions and reactions from reactants; seven request forms x loop orders x four outputs x two unit sets",
    why="The result vector is addressed by index arithmetic in three table writers and two loop orders; the interface tests write files and look at none of the cells.",
    files=["ThermoFun/Batch/ThermoBatch.cpp", "ThermoFun/Batch/OutputBatch.cpp", "ThermoFun/Batch/ThermoBatch.h"],
    mech=[("requests, loop orders and selection of properties", "ThermoFun/Batch/ThermoBatch.cpp"), ("tables", "ThermoFun/Batch/OutputBatch.cpp: foutResults, foutResultsTransposed, foutPropertyGrid"), ("units and digits", "ThermoFun/Batch/ThermoBatch.cpp: setPropertyUnit, setPropertyDigit")],
    observe=["ThermoBatch::thermoPropertiesSubstance", "ThermoBatch::thermoPropertiesReaction", "Output::to2DVectorDouble", "Output::toDouble", "Output::toCSV", "Output::toCSVTransposed", "Output::toCSVPropertyGrid"],
    note="The engine is replaced by free functions of temperature and pressure per symbol and property; the digits are the ones given to the stream.")

UN = {"temperature": "K", "pressure": "Pa", "gibbs_energy": "J/mol", "enthalpy": "J/mol", "entropy": "J/K/mol", "heat_capacity_cp": "J/K/mol", "heat_capacity_cv": "J/K/mol", "volume": "J/bar", "helmholtz_energy": "J/mol", "internal_energy": "J/mol"}
UN.update({"reaction_" + k: v for k, v in list(UN.items())[2:]}); UN.update(logKr="1", lnKr="1")
DG = {k: 3 if v in ("J/K/mol", "J/bar", "1") else 0 for k, v in UN.items()}; DG.update(temperature=1, pressure=1)
F1 = {}


def table(un):
    u, g, f = dict(UN), dict(DG), {}
    if un:
        for r in ("", "reaction_"):
            u[r + "gibbs_energy"] = "kJ/mol"; g[r + "gibbs_energy"] = 7; f[r + "gibbs_energy"] = F(1, 1000)
            u[r + "entropy"] = "cal/(mol*K)"; f[r + "entropy"] = F(1000, 4184)
            u[r + "volume"] = "cm3"; f[r + "volume"] = F(10)
            u[r + "enthalpy"] = "kcal/mol"; f[r + "enthalpy"] = F(1, 4184)
        u.update(temperature="degC", pressure="bar"); g.update(temperature=4, pressure=6, logKr=5, heat_capacity_cp=5)
    return u, g, f


def vars_(ch):
    k = F(100000) if not ch["units"] else 1
    v = {"T0": (400, 450), "T1": (300, 350), "T2": (500, 600)}
    if not ch["psat"]: v.update(P0=(20 * k, 30 * k), P1=(5 * k, 12 * k))
    if ch["call"] == 2:
        v["dT"] = (5, 20)
        if not ch["psat"]: v["dP"] = (k, 4 * k)
    return {a: tuple(map(float, b)) for a, b in v.items()}


def keep(ch):
    c, o = ch["call"], ch["out"]
    if o == 3 and not ch["pairsfirst"]: return False
    if ch["psat"] and (c > 4 or c == 1 and ch["kind"]): return False
    if ch["undef"] and (c > 4 or c in (1, 2, 3) or ch["psat"] or o == 0 or ch["units"]): return False
    if ch["dup"] and (c != 4 or o == 0 or ch["units"] or ch["psat"] or ch["undef"]): return False
    if not ch["tthenp"] and c in (0, 1): return False
    if ch["kind"] == 2 and (c > 1 or ch["units"] or ch["undef"] or ch["psat"]): return False
    if ch["kind"] == 1 and (not ch["tthenp"] or c in (1, 3) or o == 0): return c == 4 and o == 3
    if ch["units"] and ch["psat"] and c != 4: return False
    return True


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    I, St = p.ints, p.strs
    obs.append(Fact("no error", I.get("raised") == 0, "an exception was thrown", lambda n: n.ints.get("raised") != 0))
    if I.get("raised"): return obs
    kind, call, un, ps, o = ch["kind"], ch["call"], ch["units"], ch["psat"], ch["out"]
    u, g, fc = table(un)
    sep = ";" if un else ","
    sy = ["A" + sep + "1", "B", "C"]
    R = "reaction_" if kind else ""
    pr = [R + "gibbs_energy", R + "entropy", "logKr" if kind else "volume", R + "volume" if kind else "heat_capacity_cp", R + "heat_capacity_cv" if kind else "helmholtz_energy"]
    if call == 6: pr = ["lnKr", R + "enthalpy", R + "internal_energy", R + "heat_capacity_cp", R + "helmholtz_energy"] if kind else ["enthalpy", "heat_capacity_cv", "internal_energy", "volume", "entropy"]
    if call == 0: sy, pr = sy[:1], pr[:1]
    T = [("T0", var("T0")), ("T0", var("T0")) if ch["dup"] else ("T1", var("T1")), ("T2", var("T2"))]
    P = [("P0", var("P0")), ("P1", var("P1"))] if not ps else [("0", None)]
    if call in (0, 1): pairs = [(T[0], P[0])]
    elif call == 3: pairs = [(T[0], P[0]), (T[1], P[0])] + ([(T[0], P[1])] if not ps else [])
    elif call == 6: pairs = [(T[i], P[j]) for i, j in ((0, 0), (1, 1), (2, 0), (2, 1), (0, 1), (1, 0))]
    else:
        if call == 2:
            T = [("T0+%d" % i, var("T0") + c(i) * var("dT")) for i in range(3)]
            if not ps: P = [("P0+%d" % i, var("P0") + c(i) * var("dP")) for i in range(2)]
        pairs = [(t, q) for t in T for q in P] if ch["tthenp"] else [(t, q) for q in P for t in T]
    si = lambda t: t[1] + c(F("273.15")) if un else t[1]
    psi = lambda t, q: c(700) * si(t) + c(1000) if ps else q[1] * c(100000) if un else q[1]
    pout = lambda t, q: (psi(t, q) * c(F(1, 100000)) if un else psi(t, q)) if ps else q[1]
    pkey = lambda t, q: "sat" + t[0] if ps else q[0]

    def val(pi, s, k):
        t, q = pairs[pi]
        if call > 4:
            n = (s * len(pairs) + pi) if ch["pairsfirst"] else (pi * len(sy) + s)
            return uf(pr[k] + ".given%d" % n, c(n), c(1))
        return uf(pr[k] + "." + ("fr" if kind == 2 else "") + sy[s], si(t), psi(t, q))
    undef = lambda s, k: ch["undef"] and s == (0 if call == 0 else 1) and k == (0 if call == 0 else 1) and call <= 4
    unit = lambda k: c(fc.get(pr[k], 1))
    fmt = 2 if un else 1
    got = lambda n: "number" if n in p.outs else St.get(n, "missing")
    kw = dict(tol=Decimal("1e-9"), vtol=1e-9)

    def text(name, want, what):
        obs.append(Fact(what, got(name) == want + "|", "found %s, expected %s" % (got(name), want), lambda n, a=name, w=want: n.strs.get(a) != w + "|"))

    def number(name, want, dg, what):
        if name not in p.outs: obs.append(Fact(what, False, "found " + got(name), lambda n, a=name: a not in n.outs)); return
        obs.append(Eq(what, out(name), want, **kw))
        w = dg * 10 + fmt
        obs.append(Fact(what + " (digits)", I["dg" + name] == w, "%d instead of %d" % (I["dg" + name], w), lambda n, a=name, w=w: n.ints.get("dg" + a) != w))

    def cell(name, s, pi, k, what):
        if pi is None or (undef(s, k) and ch["undef"] == 1): text(name, "NaN", what)
        else: number(name, val(pi, s, k) * unit(k), g[pr[k]], what)

    def size(name, want): obs.append(Fact("size " + name, I.get(name) == want, "%s instead of %d" % (I.get(name), want), lambda n: n.ints.get(name) != want))
    order = [(s, pi) for s in range(len(sy)) for pi in range(len(pairs))] if ch["pairsfirst"] else [(s, pi) for pi in range(len(pairs)) for s in range(len(sy))]
    clean = [s.replace(sep, "_") for s in sy]
    if o == 0:
        obs += [Eq("toDouble", out("first"), val(0, 0, 0), **kw), Eq("toThermoScalar", out("scalar"), val(0, 0, 0), **kw)]
        if call < 5:
            size("rows", len(order))
            for r, (s, pi) in enumerate(order):
                for k in range(len(pr)): obs.append(Eq("%s of %s at state %d" % (pr[k], sy[s], pi), out("%d_%d" % (r, k)), val(pi, s, k), **kw))
    elif o in (1, 2):
        hd = ["Symbol" if o == 1 else "Property", "T(%s)" % u["temperature"], "P(%s)" % u["pressure"]] + (["%s(%s)" % (x, u[x]) for x in pr] if o == 1 else clean)
        for i, h in enumerate(hd): text("0_%d" % i, h, "header %d" % i)
        if o == 1: lines = [(clean[s], pi, [(s, k) for k in range(len(pr))]) for s, pi in order]
        else:
            ord2 = [(k, pi) for k in range(len(pr)) for pi in range(len(pairs))] if ch["pairsfirst"] else [(k, pi) for pi in range(len(pairs)) for k in range(len(pr))]
            lines = [("%s(%s)" % (pr[k], u[pr[k]]), pi, [(s, k) for s in range(len(sy))]) for k, pi in ord2]
        size("rows", len(lines) + 1)
        for r, (lab, pi, cs) in enumerate(lines, 1):
            t, q = pairs[pi]
            text("%d_0" % r, lab, "label of row %d" % r)
            number("%d_1" % r, t[1], g["temperature"], "temperature of row %d" % r)
            number("%d_2" % r, pout(t, q), g["pressure"], "pressure of row %d" % r)
            size("cols%d" % r, 3 + len(cs))
            for i, (s, k) in enumerate(cs, 3): cell("%d_%d" % (r, i), s, pi, k, "%s of %s in row %d" % (pr[k], sy[s], r))
    else:
        ts, pss, at = {}, {}, {}
        for pi, (t, q) in enumerate(pairs):
            ts.setdefault(t[0], t[1]); pss.setdefault(pkey(t, q), pout(t, q)); at.setdefault((t[0], pkey(t, q)), pi)
        tt = ch["tthenp"]
        rows, cols = (ts, pss) if tt else (pss, ts)
        rn, cn = ("temperature", "pressure") if tt else ("pressure", "temperature")
        for k in range(len(pr)):
            f = "f%d_" % k
            text(f + "0_0", "Symbol", pr[k] + " grid: header"); text(f + "0_1", "%s(%s)_%s(%s)" % (rn[0].upper(), u[rn], cn[0].upper(), u[cn]), pr[k] + " grid: axes")
            for i, (x, e) in enumerate(cols.items(), 2): number(f + "0_%d" % i, e, g[cn], "%s grid: column %s" % (pr[k], x))
            size(f + "rows", 1 + len(sy) * len(rows))
            r = 0
            for s in range(len(sy)):
                for y, e in rows.items():
                    r += 1
                    text(f + "%d_0" % r, clean[s], "%s grid: label of row %d" % (pr[k], r)); number(f + "%d_1" % r, e, g[rn], "%s grid: %s of row %d" % (pr[k], rn, r))
                    size(f + "cols%d" % r, 2 + len(cols))
                    for i, x in enumerate(cols, 2): cell(f + "%d_%d" % (r, i), s, at.get((y, x) if tt else (x, y)), k, "%s grid: %s at %s, %s" % (pr[k], sy[s], y, x))
    return obs


STEPS = [Group("increments", ["Batch/*.cpp", "Common/Units.cpp"], ["batch.cpp"], dict(T0=(0, 400), dT=(8, 60), wT=(0, 60), P0=(1, 400), dP=(12, 60), wP=(0, 40)), lambda p, ctx, ch: increments(p), init=dict(T0=300, dT=50, wT=50, P0=50, dP=40, wP=20), defs=["STEPS"], max_paths=200)]


def increments(p):
    obs = [returns(p)]
    if p.status != "ok": return obs
    n, m = p.ints["nT"], p.ints["nP"]
    e = Decimal("1e-6")

    def rng(k, w, s):
        def fn(t):
            import z3
            return z3.And(t[w] + t[s] * 1e-6 >= t[s] * (k - 1), t[w] < t[s] * (k + 1e-6))
        return fn
    return obs + [Cond("number of temperatures", rng(n, "wT", "dT"), ["wT", "dT"]), Cond("number of pressures", rng(m, "wP", "dP"), ["wP", "dP"])] + \
        [Eq("state %d,%d" % (i, j), out("g%d_%d" % (i, j)), uf("gibbs_energy.A", var("T0") + c(i) * var("dT"), var("P0") + c(j) * var("dP")), tol=Decimal("1e-9"), vtol=1e-9) for i in range(n) for j in range(m)]


def runner():
    g = Group("batch", ["Batch/*.cpp", "Common/Units.cpp"], ["batch.cpp"], vars_, obligations, choices={"kind": 3, "call": 7, "pairsfirst": 2, "tthenp": 2, "out": 4, "units": 2, "psat": 2, "undef": 3, "dup": 2}, choice_filter=keep)
    return Runner("B01", [g] + STEPS, bounds=["up to three symbols, five properties, six states per request", "increments: up to eight temperatures and four pressures"])
