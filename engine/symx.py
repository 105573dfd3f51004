"""Concolic path exploration of an instrumented executable.

Each run yields the expression DAG, the branch decisions (over symbolic doubles) and the outputs.
Unexplored branch sides are handed to z3 (reals; transcendental functions uninterpreted, with
range facts); `unsat` prunes the side, a model (checked numerically) becomes the next concrete input.
"""
import math, os, random, struct, subprocess, tempfile, time
from fractions import Fraction
import z3

CONST, VAR, ADD, SUB, MUL, DIV, NEG, POW, EXP, LOG, SQRT, FABS, FN1, FN2, UFN = range(15)


def hexd(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


class Dag:
    __slots__ = ("op", "a", "b", "imm", "sh", "name", "args", "names", "hashes")

    def __init__(self):
        self.op, self.a, self.b, self.imm, self.sh, self.name, self.args, self.names = [], [], [], [], [], [], {}, []
        self.hashes = {}


class Path:
    pass


def parse(text):
    g = Dag()
    p = Path()
    p.dag, p.decs, p.outs, p.ints, p.strs, p.choices, p.status = g, [], {}, {}, {}, {}, "crash"
    ended = False
    for line in text.split("\n"):
        if not line:
            continue
        c = line[0]
        f = line.split(" ")
        if f[0] == "n":
            g.op.append(int(f[1])); g.a.append(int(f[2])); g.b.append(int(f[3])); g.imm.append(hexd(f[4])); g.sh.append(hexd(f[5])); g.name.append(int(f[6]))
            if len(f) > 7:
                g.args[len(g.op) - 1] = [int(x) for x in f[7:]]
        elif f[0] == "d":
            p.decs.append((int(f[1]), int(f[2]), int(f[3]), int(f[4]), f[5]))
        elif f[0] == "o":
            p.outs[f[1]] = ("s", int(f[3])) if f[2] == "s" else ("c", hexd(f[3]))
        elif f[0] == "i":
            p.ints[f[1]] = int(f[2])
        elif f[0] == "t":
            p.strs[f[1]] = line.split(" ", 2)[2]
        elif f[0] == "c":
            p.choices[f[1]] = int(f[2])
        elif f[0] == "name":
            g.names.append(line.split(" ", 2)[2])
        elif f[0] == "status":
            p.status = line[7:]
        elif f[0] == "end":
            ended = True
    if not ended:
        p.status = "crash"
    return p


def runexe(exe, inputs, choices, timeout=120, maxdec=5000, want="sym"):
    with tempfile.TemporaryDirectory(prefix="symx") as d:
        fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
        with open(fi, "w") as f:
            for k, v in inputs.items():
                f.write("v %s %s\n" % (k, float(v).hex() if math.isfinite(v) else v))
            for k, v in choices.items():
                f.write("c %s %d\n" % (k, v))
        env = dict(os.environ)
        env.update(SYM_IN=fi, SYM_OUT=fo, SYM_MAXDEC=str(maxdec))
        try:
            r = subprocess.run([exe], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, cwd=d)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
        text = open(fo).read() if os.path.exists(fo) else ""
    p = parse(text)
    p.code = code
    if code == "timeout":
        p.status = "timeout"
    p.inputs, p.given_choices = dict(inputs), dict(choices)
    return p


def nodeval(g, env, upto=None, ids=None):
    """Evaluate the whole DAG in floats for an environment {var: value} (numpy arrays allowed)."""
    import numpy as np
    n = len(g.op)
    v = [None] * n
    old = np.seterr(all="ignore")
    for i in range(n):
        o = g.op[i]
        if o == CONST:
            v[i] = g.imm[i]
        elif o == VAR:
            v[i] = env.get(g.names[g.name[i]], 0.0)
        elif o == ADD:
            v[i] = v[g.a[i]] + v[g.b[i]]
        elif o == SUB:
            v[i] = v[g.a[i]] - v[g.b[i]]
        elif o == MUL:
            v[i] = v[g.a[i]] * v[g.b[i]]
        elif o == DIV:
            v[i] = np.divide(v[g.a[i]], v[g.b[i]])
        elif o == NEG:
            v[i] = -v[g.a[i]]
        elif o == POW:
            v[i] = np.power(np.asarray(v[g.a[i]], dtype=float), v[g.b[i]])
        elif o == EXP:
            v[i] = np.exp(v[g.a[i]])
        elif o == LOG:
            v[i] = np.log(v[g.a[i]])
        elif o == SQRT:
            v[i] = np.sqrt(v[g.a[i]])
        elif o == FN1:
            nm = g.names[g.name[i]]
            f = {"acos": np.arccos, "asin": np.arcsin, "atan": np.arctan}.get(nm) or getattr(np, nm)
            v[i] = f(v[g.a[i]])
        elif o == FN2:
            nm = g.names[g.name[i]]
            f = {"atan2": np.arctan2, "fmod": np.fmod, "hypot": np.hypot}[nm]
            v[i] = f(v[g.a[i]], v[g.b[i]])
        elif o == UFN:
            v[i] = ufval(g.names[g.name[i]], [v[x] for x in g.args.get(i, [])])
        if ids is not None and i >= max(ids):
            break
    np.seterr(**old)
    return v


def ufval(name, args):
    """Same smooth interpretation as sym_ufval in symrt.cpp."""
    import numpy as np
    h = 1469598103934665603
    for ch in name.encode():
        h = ((h ^ ch) * 1099511628211) & (2**64 - 1)
    r = 1.0 + float((h >> 11) & 1023) / 1024.0
    for i, x in enumerate(args):
        h = (h * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        c = float((h >> 33) & 4095) / 4096.0 + 0.25
        y = np.arcsinh(x * 1e-2 * (i + 1))
        r = r + (0.2 * c * y + 0.1 * np.sin(y * 3 * c))
    return r


class Z3Ctx:
    """Translates DAG nodes to z3 real terms (per path)."""

    def __init__(self, g):
        self.g, self.memo, self.side, self.ufs, self.vars = g, {}, [], {}, {}

    def uf(self, name, n):
        k = (name, n)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        return self.ufs[k]

    def const(self, x):
        fr = Fraction(x)
        return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))

    def t(self, i):
        st = [i]
        g, m = self.g, self.memo
        while st:
            j = st[-1]
            if j in m:
                st.pop(); continue
            o = g.op[j]
            if o == CONST:
                m[j] = self.const(g.imm[j]) if math.isfinite(g.imm[j]) else z3.Real("inf%d" % j)
                st.pop(); continue
            if o == VAR:
                nm = g.names[g.name[j]]
                m[j] = self.vars.setdefault(nm, z3.Real(nm))
                st.pop(); continue
            ch = g.args.get(j, []) if o == UFN else ([g.a[j], g.b[j]] if o in (ADD, SUB, MUL, DIV, POW, FN2) else [g.a[j]])
            todo = [c for c in ch if c not in m]
            if todo:
                st.extend(todo); continue
            x = [m[c] for c in ch]
            if o == ADD: r = x[0] + x[1]
            elif o == SUB: r = x[0] - x[1]
            elif o == MUL: r = x[0] * x[1]
            elif o == DIV:
                r = x[0] / x[1]
            elif o == NEG: r = -x[0]
            elif o == POW:
                e = g.imm[g.b[j]] if g.op[g.b[j]] == CONST else None
                if e is not None and math.isfinite(e) and e == int(e) and 0 < abs(e) <= 6:
                    r = x[0]
                    for _ in range(int(abs(e)) - 1): r = r * x[0]
                    if e < 0: r = 1 / r
                elif e is not None and math.isfinite(e) and 2 * e == int(2 * e) and abs(e) <= 6:
                    r = self.uf("sqrt", 1)(x[0]); self.side.append(z3.And(r >= 0, z3.Implies(x[0] >= 0, r * r == x[0])))
                    for _ in range(int(abs(e) - 0.5)): r = r * x[0]
                    if e < 0: r = 1 / r
                else:
                    r = self.uf("pow", 2)(x[0], x[1]); self.side.append(z3.Implies(x[0] > 0, r > 0))
            elif o == EXP:
                r = self.uf("exp", 1)(x[0]); self.side.append(r > 0)
                self.side.append(z3.And(r >= 1 + x[0], (r > 1) == (x[0] > 0)))
            elif o == LOG:
                r = self.uf("log", 1)(x[0]); self.side.append(z3.Implies(x[0] > 0, z3.And(r <= x[0] - 1, r * x[0] >= x[0] - 1, (r > 0) == (x[0] > 1), z3.Implies(x[0] != 1, z3.And(r < x[0] - 1, r * x[0] > x[0] - 1)))))
            elif o == SQRT:
                r = self.uf("sqrt", 1)(x[0]); self.side.append(z3.And(r >= 0, z3.Implies(x[0] >= 0, r * r == x[0])))
            elif o == FN1:
                nm = g.names[g.name[j]]
                r = self.uf(nm, 1)(x[0])
                if nm in ("sin", "cos"): self.side.append(z3.And(r >= -1, r <= 1))
                if nm == "cbrt": self.side.append(r * r * r == x[0])
                if nm == "floor": self.side.append(z3.And(r <= x[0], x[0] < r + 1))
                if nm == "ceil": self.side.append(z3.And(r >= x[0], x[0] > r - 1))
            elif o == FN2:
                r = self.uf(g.names[g.name[j]], 2)(x[0], x[1])
            else:
                r = self.uf("uf_" + g.names[g.name[j]], len(x))(*x) if x else z3.Real("uf_" + g.names[g.name[j]])
            m[j] = r
            st.pop()
        return m[i]

    def cond(self, d, taken=None):
        op, a, b, tk = d[:4]
        if taken is None:
            taken = tk
        x, y = self.t(a), self.t(b)
        c = x < y if op == 0 else (x <= y if op == 1 else x == y)
        return c if taken else z3.Not(c)


def holds(d, va, vb, taken=None):
    r = (va < vb) if d[0] == 0 else (va <= vb) if d[0] == 1 else (va == vb)
    return r == bool(d[3] if taken is None else taken)


class Stats:
    def __init__(self):
        self.runs = self.queries = self.unsat = self.sat = self.unknown = 0
        self.solver_s = 0.0
        self.unexplored = []
        self.diverged = 0
        self.paths = 0
        self.decisions = 0
        self.numeric = 0
        self.eq_skipped = 0


def model_val(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_rational_value(r):
        return r.numerator_as_long() / r.denominator_as_long()
    if z3.is_algebraic_value(r):
        a = r.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    return None


def shash(g, i):
    """Structural hash of a DAG node, comparable across paths."""
    memo = g.hashes
    st = [i]
    while st:
        j = st[-1]
        if j in memo:
            st.pop(); continue
        o = g.op[j]
        ch = g.args.get(j, []) if o == UFN else ([g.a[j], g.b[j]] if o in (ADD, SUB, MUL, DIV, POW, FN2) else [] if o in (CONST, VAR) else [g.a[j]])
        todo = [c for c in ch if c not in memo]
        if todo:
            st.extend(todo); continue
        memo[j] = hash((o, g.imm[j] if o == CONST else 0, g.names[g.name[j]] if g.name[j] >= 0 else "", tuple(memo[c] for c in ch)))
        st.pop()
    return memo[i]


def flip(p, i, vars_, extra, stats, rng, qtimeout, cache):
    """Find inputs that follow p's decisions up to i and then take the other side of decision i."""
    import numpy as np
    g = p.dag
    d = p.decs[i]
    need = max([max(p.decs[k][1], p.decs[k][2]) for k in range(i + 1)])
    names = list(vars_)

    def batch(env, N):
        v = nodeval(g, env, ids=[need])
        good = np.ones(N, dtype=bool)
        with np.errstate(all="ignore"):
            for k in range(i + 1):
                dd = p.decs[k]
                va, vb = v[dd[1]], v[dd[2]]
                c = (va < vb) if dd[0] == 0 else (va <= vb) if dd[0] == 1 else (va == vb)
                want = bool(dd[3]) if k < i else not dd[3]
                good &= (np.broadcast_to(np.asarray(c), (N,)) == want)
        idx = np.nonzero(good)[0]
        if not len(idx): return None
        j = int(idx[0])
        full = dict(p.inputs); full.update({n: float(env[n][j]) for n in names})
        return full

    # the negated decision on its own (independent of the path; remembered)
    t0 = time.time()
    key = (d[0], shash(g, d[1]), shash(g, d[2]), d[3])
    to_eq = d[0] == 2 and not d[3]
    if key not in cache:
        cx = Z3Ctx(g)
        s = z3.Solver()
        s.set("timeout", int(min(qtimeout, 1 if to_eq else qtimeout) * 1000))
        s.add(cx.cond(d, not d[3]))
        for n, v in list(cx.vars.items()):
            if n in vars_: s.add(v >= cx.const(vars_[n][0]), v <= cx.const(vars_[n][1]))
        for c in cx.side: s.add(c)
        if extra:
            for n in vars_: cx.vars.setdefault(n, z3.Real(n))
            for c in extra(cx.vars): s.add(c)
        cache[key] = str(s.check())
        stats.queries += 1
    stats.solver_s += time.time() - t0
    if cache[key] == "unsat":
        stats.unsat += 1
        return None, "unsat"
    if to_eq and cache[key] == "unknown":
        stats.unknown += 1
        return None, "unknown"
    def query(prefix, timeout):
        cx = Z3Ctx(g)
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        for k in prefix: s.add(cx.cond(p.decs[k]))
        s.add(cx.cond(d, not d[3]))
        for n, (lo, hi) in vars_.items():
            v = cx.vars.setdefault(n, z3.Real(n))
            s.add(v >= cx.const(lo), v <= cx.const(hi))
        for c in cx.side:
            s.add(c)
        if extra:
            for c in extra(cx.vars):
                s.add(c)
        return cx, s

    # with the inequalities decided before it (few; remembered across the paths that share them)
    ineq = [k for k in range(i) if p.decs[k][0] != 2]
    t0 = time.time()
    if len(ineq) < i:
        key2 = key + tuple((p.decs[k][0], shash(g, p.decs[k][1]), shash(g, p.decs[k][2]), p.decs[k][3]) for k in ineq)
        if key2 not in cache:
            cx, s = query(ineq, min(qtimeout, 1 if to_eq else qtimeout))
            cache[key2] = str(s.check())
            stats.queries += 1
        stats.solver_s += time.time() - t0
        if cache[key2] == "unsat":
            stats.unsat += 1
            return None, "unsat"
        if to_eq and cache[key2] == "unknown":
            stats.unknown += 1
            return None, "unknown"
    if names and not (extra):
        # cheap candidates first: one variable at 0, at another variable's value, or perturbed
        cand = []
        for n in names:
            lo, hi = vars_[n]
            vals = [0.0, lo, hi] + [lo + (hi - lo) * rng.random() for _ in range(2)] + [p.inputs[n] * (1 + 1e-6)]
            if d[0] == 2 and not d[3] and len(names) < 40: vals += [p.inputs[m] for m in names if m != n]
            if g.op[d[1]] == CONST: vals.append(g.imm[d[1]])
            if g.op[d[2]] == CONST: vals.append(g.imm[d[2]])
            cand += [(n, x) for x in vals if lo <= x <= hi]
        N = len(cand)
        if N:
            env = {n: np.full(N, p.inputs[n], dtype=float) for n in names}
            for j, (n, x) in enumerate(cand): env[n][j] = x
            full = batch(env, N)
            if full is not None:
                stats.numeric += 1
                return full, "numeric"
    t0 = time.time()
    cx, s = query(range(i), qtimeout)
    r = s.check()
    stats.queries += 1
    stats.solver_s += time.time() - t0
    if r == z3.unsat:
        stats.unsat += 1
        return None, "unsat"

    def ok(env):
        full = dict(p.inputs); full.update(env)
        for n, (lo, hi) in vars_.items():
            if not (lo <= full[n] <= hi): return False
        v = nodeval(g, full, ids=[need])
        try:
            return all(holds(p.decs[k], float(v[p.decs[k][1]]), float(v[p.decs[k][2]]), None if k < i else not d[3]) for k in range(i + 1))
        except Exception:
            return False

    if r == z3.sat:
        stats.sat += 1
        m = s.model()
        env = {}
        for n in vars_:
            val = model_val(m, cx.vars[n])
            if val is not None:
                env[n] = val
        # stay close to the present inputs for variables the model leaves free
        if ok(env):
            full = dict(p.inputs); full.update(env)
            return full, "sat"
    else:
        stats.unknown += 1
    if to_eq:
        cache[key] = "unknown"
        return None, "unknown"   # random points do not meet an equality
    # numeric search (the model used an uninterpreted transcendental function, or the solver gave up)
    stats.numeric += 1
    N = 4000
    for rnd in range(3):
        env = {}
        for n in names:
            lo, hi = vars_[n]
            if rnd == 0 or rng.random() < 0.3:
                if lo > 0 and hi / lo > 1e3:
                    env[n] = np.exp(np.array([rng.uniform(math.log(lo), math.log(hi)) for _ in range(N)]))
                else:
                    env[n] = np.array([rng.uniform(lo, hi) for _ in range(N)])
            else:
                base = p.inputs[n]
                sc = np.array([10 ** rng.uniform(-6, 0) for _ in range(N)])
                env[n] = np.clip(base + sc * (hi - lo) * np.array([rng.gauss(0, 1) for _ in range(N)]), lo, hi)
        if not names: break
        full = batch(env, N)
        if full is not None:
            return full, "numeric"
    return None, "unknown"


def explore(exe, vars_, init=None, choices=None, extra=None, max_paths=200, budget_s=120, qtimeout=3, seed=1, maxdec=2000, stats=None, keep=lambda p: True, skip_flip=None, seeds=None, max_eq=1):
    """vars_: {name: (lo, hi)}; init: {name: value}; returns (paths, stats)."""
    stats = stats or Stats()
    rng = random.Random(seed)
    choices = choices or {}
    t0 = time.time()
    base = {}
    for n, (lo, hi) in vars_.items():
        base[n] = init[n] if init and n in init else lo + (hi - lo) * (0.37 + 0.2 * rng.random())
    work = [((), base, 0)]
    for sd in seeds or []:
        full = dict(base); full.update(sd)
        work.append(((), full, 0))
    cache = {}
    seen = set()
    seen_eq = set()

    def eqkey(p, i):
        """an equality test in the context of the inequalities decided before it"""
        if not hasattr(p, "eqk"):
            p.eqk = {}
            h = 0
            for j, dd in enumerate(p.decs):
                if dd[0] == 2: p.eqk[j] = (h, shash(p.dag, dd[1]), shash(p.dag, dd[2]), dd[3])
                else: h = hash((h, dd[0], shash(p.dag, dd[1]), shash(p.dag, dd[2]), dd[3]))
        return p.eqk[i]

    flipped = set()
    paths = []
    while work:
        if len(paths) >= max_paths or time.time() - t0 > budget_s:
            stats.unexplored.append("budget: %d work items left" % len(work))
            break
        prefix, inp, neq = work.pop()
        p = runexe(exe, inp, choices, maxdec=maxdec)
        stats.runs += 1
        bits = tuple(d[3] for d in p.decs)
        if bits[:len(prefix)] != prefix:
            stats.diverged += 1
            if os.environ.get("SYMX_DEBUG"):
                k = next((i for i in range(len(prefix)) if i >= len(bits) or bits[i] != prefix[i]), None)
                print("diverged at", k, inp)
        if (bits, p.status) in seen:
            continue
        seen.add((bits, p.status))
        p.bits = bits
        stats.decisions += len(bits)
        for i in range(len(bits)):
            if p.decs[i][0] == 2: seen_eq.add(eqkey(p, i))
        if p.status != "assume" and keep(p):
            paths.append(p)
            stats.paths += 1
        asked = set()
        for i in range(len(bits)):
            # the same question was answered before on this path: the other side cannot happen
            q = (p.decs[i][0], shash(p.dag, p.decs[i][1]), shash(p.dag, p.decs[i][2]))
            if q in asked:
                continue
            asked.add(q)
            key = bits[:i] + (1 - bits[i],)
            if key in flipped:
                continue
            flipped.add(key)
            if any(b[0][:i + 1] == key for b in seen):
                continue
            if skip_flip and skip_flip(p, i):
                stats.unexplored.append("skipped side of decision %d" % i)
                continue
            to_eq = p.decs[i][0] == 2 and not p.decs[i][3]
            if p.decs[i][0] == 2 and (eqkey(p, i)[:-1] + (1 - bits[i],)) in seen_eq and (to_eq and neq >= max_eq or not to_eq):
                stats.eq_skipped += 1
                continue
            if to_eq and neq >= max_eq:
                stats.eq_skipped += 1
                continue
            new, why = flip(p, i, vars_, extra, stats, rng, qtimeout, cache)
            if new is not None:
                work.append((key, new, neq + (1 if to_eq else 0)))
            elif why == "unknown":
                stats.unexplored.append("undecided side of decision %d (of %d) op %d" % (i, len(bits), p.decs[i][0]))
        if p.status == "assume":
            continue
    return paths, stats
