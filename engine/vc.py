"""Verification conditions over path DAGs, their discharge with z3, and replay on the native build."""
import fnmatch, itertools, json, math, multiprocessing as mpc, os, random, sys, time, traceback, zlib
from decimal import Decimal
D1 = Decimal(1)
from fractions import Fraction
import z3
from . import build as B, poly as P, symx as S

VERIF = B.VERIF


# ---------------------------------------------------------------- expressions
class X:
    def __init__(self, k, *a):
        self.k, self.a = k, a

    @staticmethod
    def w(o):
        return o if isinstance(o, X) else X("c", o)

    def __add__(s, o): return X("+", s, X.w(o))
    def __radd__(s, o): return X("+", X.w(o), s)
    def __sub__(s, o): return X("-", s, X.w(o))
    def __rsub__(s, o): return X("-", X.w(o), s)
    def __mul__(s, o): return X("*", s, X.w(o))
    def __rmul__(s, o): return X("*", X.w(o), s)
    def __truediv__(s, o): return X("/", s, X.w(o))
    def __rtruediv__(s, o): return X("/", X.w(o), s)
    def __neg__(s): return X("*", X.w(-1), s)
    def __pow__(s, e): return X("^", s, e)

    def __repr__(s):
        if s.k in "+-*/": return "(%r %s %r)" % (s.a[0], s.k, s.a[1])
        if s.k in ("out", "var", "c"): return str(s.a[0])
        return "%s(%s)" % (s.k, ", ".join(map(repr, s.a)))


def out(n): return X("out", n)
def var(n): return X("var", n)
def c(v): return X("c", v)
def d(e, x): return X("d", X.w(e), x)
def exp(e): return X("exp", X.w(e))
def log(e): return X("log", X.w(e))
def sqrt(e): return X("^", X.w(e), Fraction(1, 2))
def uf(name, *a): return X("uf", name, *[X.w(t) for t in a])
def frac(a, b): return X("c", Fraction(a, b))


def dvars(e):
    s = {e.a[1]} if e.k == "d" else set()
    for x in e.a:
        if isinstance(x, X): s |= dvars(x)
    return s


class Eq:
    """lhs == rhs for all inputs of the path, to relative tolerance tol per term.
    cut: outputs first taken as arbitrary numbers (a proof for all of them covers the computed ones)."""
    def __init__(self, name, lhs, rhs, tol=1e-9, vtol=1e-6, scale=None, about="", cut=()):
        self.cut = cut
        self.name, self.lhs, self.rhs, self.tol, self.vtol, self.about = name, X.w(lhs), X.w(rhs), tol, vtol, about
        self.scale = scale


class Cond:
    """cond (python callable from {name: z3 term}) must follow from the path condition."""
    def __init__(self, name, fn, needs, about="", timeout=20, native=None):
        self.name, self.fn, self.needs, self.about, self.timeout, self.native = name, fn, needs, about, timeout, native


class Fact:
    """A concrete per-path fact (status, integers, strings); ok must be True."""
    def __init__(self, name, ok, detail="", native=None):
        self.name, self.ok, self.detail, self.native = name, ok, detail, native


# ---------------------------------------------------------------- evaluation
class PathCtx:
    # normal-form strategies, tried in turn: any one that closes an obligation proves it
    STRATEGIES = [dict(eager=True, common=0), dict(eager=True, common=3000), dict(eager=False, common=40)]

    def __init__(self, path, derivs=None, subst=None, strategy=0):
        self.p = path
        self.args, self.alts = (path, derivs, subst), {}
        self.ring = P.Ring(derivs=derivs, shadows=dict(path.inputs), **self.STRATEGIES[strategy])
        self.subst = {}
        for k, v in (subst or {}).items():
            self.subst[k] = v(self.ring) if callable(v) else v
        self.pc = {}
        # equalities decided on the path (v == constant, v == w, product == 0, linear in some variable)
        self.kept = set()
        g = path.dag
        for dd in path.decs:
            if dd[0] != 2 or dd[3] != 1: continue
            try:
                A, Bq = P.from_dag(self.ring, g, [dd[1], dd[2]], self.subst)
                D = self.ring.clean(self.ring.add(A, Bq, Decimal(-1)))
            except (P.Blowup, P.Domain):
                continue
            if not D: continue
            R = self.ring
            R.__dict__.pop("memo", None)
            if len(D) == 1:
                (m, _), = D.items()
                vs = [R.gens[x][1] for x, e in m if R.gens[x][0] == "var"]
                vs = [v for v in vs if path.inputs.get(v) == 0.0] or (vs if len(m) == 1 else [])
                if vs:
                    self.subst[vs[0]] = {}
                    self.kept.add(vs[0])
                continue
            for m, cw in D.items():
                if len(m) == 1 and m[0][1] == 1 and R.gens[m[0][0]][0] == "var":
                    x = m[0][0]
                    if any(n != m and any(gg == x for gg, _ in n) for n in D): continue
                    if any(R.gens[gg][0] != "var" for n in D for gg, _ in n): continue
                    self.subst[R.gens[x][1]] = R.scale({n: t for n, t in D.items() if n != m}, Decimal(-1) / cw[0])
                    self.kept |= {R.gens[gg][1] for n in D for gg, _ in n}
                    break

    def alt(self, i):
        if i == 0: return self
        if i not in self.alts: self.alts[i] = PathCtx(*self.args, strategy=i)
        return self.alts[i]

    def cut(self, names):
        """This context with the given outputs replaced by free variables."""
        nodes = {self.p.outs[n][1]: n for n in names if self.p.outs[n][0] == "s"}
        if not nodes: return None
        k = ("cut",) + tuple(sorted(nodes))
        if k not in self.alts:
            c = self.alts[k] = PathCtx(*self.args)
            c.ring.__dict__.pop("memo", None)
            for i, n in nodes.items():
                c.ring.shadow["@" + n] = self.p.dag.sh[i]
                c.subst[i] = c.ring.var("@" + n)
        return self.alts[k]

    def poly(self, e):
        k = id(e)
        if k in self.pc: return self.pc[k][0]
        r = self._poly(e)
        self.pc[k] = (r, e)
        return r

    def _poly(self, e):
        R = self.ring
        k, a = e.k, e.a
        if k == "c":
            v = a[0]
            if isinstance(v, Fraction): return R.const(Decimal(v.numerator) / Decimal(v.denominator))
            return R.const(Decimal(v))
        if k == "var":
            if a[0] in self.subst: return self.subst[a[0]]
            return R.var(a[0])
        if k == "out":
            t, v = self.p.outs[a[0]]
            if t == "c":
                if not math.isfinite(v): raise P.Domain("output %s is %r" % (a[0], v))
                return R.const(Decimal(v))
            return P.from_dag(R, self.p.dag, [v], self.subst)[0]
        if k == "+": return R.add(self.poly(a[0]), self.poly(a[1]))
        if k == "-": return R.add(self.poly(a[0]), self.poly(a[1]), Decimal(-1))
        if k == "*": return R.mul(self.poly(a[0]), self.poly(a[1]))
        if k == "/": return R.div(self.poly(a[0]), self.poly(a[1]))
        if k == "^": return R.power(self.poly(a[0]), a[1])
        if k == "exp": return R.exp(self.poly(a[0]))
        if k == "log": return R.log(self.poly(a[0]))
        if k == "d": return R.diff(self.poly(a[0]), a[1])
        if k == "uf": return R.fn("uf:" + a[0], [self.poly(t) for t in a[1:]], float(S.ufval(a[0], [R.shadow_poly(self.poly(t)) for t in a[1:]])))
        raise ValueError(k)


def native_eval(e, exe, inputs, choices, derivs, cache=None, hs=None):
    """Numeric value of an expression from runs of the native executable (finite differences for d)."""
    cache = {} if cache is None else cache

    def outs(env):
        key = tuple(sorted(env.items()))
        if key not in cache:
            cache[key] = S.runexe(exe, env, choices)
        return cache[key]

    def flow(env, x, h):
        n = dict(env)
        n[x] = env[x] + h
        for (v, w), dv in (derivs or {}).items():
            if w != x or v not in env or not isinstance(dv, str): continue
            n[v] = env[v] + h * env.get(dv, 0.0)
            d2 = derivs.get((dv, x))
            if isinstance(d2, str): n[v] += 0.5 * h * h * env.get(d2, 0.0)
        return n

    def ev(t, env, depth):
        k, a = t.k, t.a
        if k == "c": return float(a[0])
        if k == "var": return env[a[0]]
        if k == "out":
            r = outs(env).outs.get(a[0])
            if r is None: raise P.Domain("no output " + a[0])
            return r[1]
        if k == "d":
            x = a[1]
            h0 = (hs or {}).get(x) or max(abs(env[x]), 1e-30) * (1e-3 if depth else 1e-4)
            best, prev = None, None
            f = lambda h: (ev(a[0], flow(env, x, h), depth + 1) - ev(a[0], flow(env, x, -h), depth + 1)) / (2 * h)
            vals = []
            for s in (4, 1, 0.25):
                d1, d2 = f(h0 * s), f(h0 * s / 2)
                vals.append((d2 + (d2 - d1) / 3, abs(d2 - d1)))
            vals.sort(key=lambda t: t[1])
            return vals[0][0]
        if k == "exp": return math.exp(ev(a[0], env, depth))
        if k == "log": return math.log(ev(a[0], env, depth))
        if k == "^": return ev(a[0], env, depth) ** float(a[1])
        if k == "uf": return float(S.ufval(a[0], [ev(t, env, depth) for t in a[1:]]))
        u, v = ev(a[0], env, depth), ev(a[1], env, depth)
        if k == "+": return u + v
        if k == "-": return u - v
        if k == "*": return u * v
        return u / v
    return ev(e, inputs, 0)


# ---------------------------------------------------------------- discharge
class Result:
    def __init__(self):
        self.proved, self.undecided, self.violations, self.queries, self.solver_s = [], [], [], 0, 0.0
        self.facts = 0
        self.degenerate = 0
        self.samples = []
        self.count = {}


def q(dec):
    n, dn = dec.as_integer_ratio()
    return z3.RealVal("%d/%d" % (n, dn))


def z3_linear(resid, tol, res, chunk=20):
    """exists monomial values with |sum c_i m_i| > tol * sum mass_i |m_i| ?  (monomials abstracted)
    Decided in chunks of terms: the bound for the sum is the sum of the bounds for the chunks."""
    items = [(i, cw) for i, cw in enumerate(resid.values()) if abs(cw[0]) > Decimal("1e-45") * cw[1]]
    # terms that cancelled far below the tolerance: |sum c_i x_i| <= max|c_i|/w_i * sum w_i |x_i|, one term for all of them
    tiny = [cw for _, cw in items if abs(cw[0]) <= Decimal(tol) / 1000 * cw[1]]
    items = [t for t in items if abs(t[1][0]) > Decimal(tol) / 1000 * t[1][1]]
    if tiny: items.append((-1, (max(abs(cc) / w for cc, w in tiny), D1)))
    tl = z3.RealVal(str(tol) if "e" not in str(tol) else "%.30f" % tol)
    r = z3.unsat
    for k in range(0, max(1, len(items)), chunk):
        s = z3.Solver()
        s.set("timeout", 60000)
        t, b = [], []
        for i, (cc, w) in items[k:k + chunk]:
            # the unknown x is the monomial scaled by its mass; the ratio is rounded away from zero
            x, y = z3.Real("m%d" % (i + 1)), z3.Real("a%d" % (i + 1))
            with P.localcontext() as cx:
                cx.prec = 4
                cx.rounding = "ROUND_UP"
                ratio = cc / w
            s.add(y >= x, y >= -x)
            t.append(q(ratio) * x)
            b.append(tl * y)
        t0 = time.time()
        lhs = z3.Sum(t) if t else z3.RealVal(0)
        rhs = z3.Sum(b) if b else z3.RealVal(0)
        s.add(z3.Or(lhs > rhs, -lhs > rhs))
        r = s.check()
        res.queries += 1
        res.solver_s += time.time() - t0
        if r != z3.unsat: return r
    return r


def mono_str(ring, m):
    def gs(g):
        k, dta, _ = ring.gens[g]
        return dta if k == "var" else "%s#%d" % (k, g)
    return "*".join("%s^%s" % (gs(g), e) if e != 1 else gs(g) for g, e in m) or "1"


def climb(measure, found, p, vars_, kept, rng, vtol, seconds=25):
    """Where is the difference largest?  A difference confined to a small region (a Gaussian term far from its
    centre) still has a slope everywhere in exact arithmetic; follow it."""
    t0, pool = time.time(), found[:6]
    rounds = 0
    while time.time() - t0 < seconds and pool and rounds < 60:
        rounds += 1
        parents, new = pool[:3], []
        for m in parents:
            for env in path_points(p, vars_, rng, n=12, kept=kept, centre=m[1])[1:5]:
                x = measure(env)
                if x: new.append(x)
                if time.time() - t0 > seconds: break
        pool = sorted(pool + new, key=lambda m: -m[0])[:6]
        if pool[0][0] > 1e4 * vtol and rounds > 8: break
    return pool[0]


def path_points(p, vars_, rng, n=400, kept=(), centre=None):
    """Concrete inputs that follow the path (its own first)."""
    import numpy as np
    pts = [dict(p.inputs)]
    names = list(vars_)
    if not names: return pts
    env = {}
    for nme in p.inputs:
        env[nme] = np.full(n, p.inputs[nme], dtype=float)
    for nme in names:
        lo, hi = vars_[nme]
        if centre is not None:
            if nme in kept: continue
            env[nme] = np.clip(centre[nme] + np.array([(hi - lo) * rng.gauss(0, 1) * 10 ** rng.uniform(-4, -0.5) if rng.random() < 0.7 else 0.0 for _ in range(n)]), lo, hi)
            continue
        u = np.array([rng.uniform(lo, hi) for _ in range(n)])
        keepmask = np.array([nme in kept or rng.random() < 0.35 for _ in range(n)])
        env[nme] = np.where(keepmask, env[nme], u)
        half = n // 2
        if nme in kept: continue
        env[nme][half:] = np.clip(p.inputs[nme] + (hi - lo) * np.array([rng.gauss(0, 1) * 10 ** rng.uniform(-4, -1) for _ in range(n - half)]), lo, hi)
    good = np.ones(n, dtype=bool)
    if p.decs:
        need = max(max(dd[1], dd[2]) for dd in p.decs)
        with np.errstate(all="ignore"):
            v = S.nodeval(p.dag, env, ids=[need])
            for dd in p.decs:
                va, vb = v[dd[1]], v[dd[2]]
                cnd = (va < vb) if dd[0] == 0 else (va <= vb) if dd[0] == 1 else (va == vb)
                good &= (np.broadcast_to(np.asarray(cnd), (n,)) == bool(dd[3]))
    for j in np.nonzero(good)[0][:40]:
        pts.append({k: float(env[k][j]) for k in env})
    return pts


class Group:
    """One harness configuration: build, symbolic inputs, enumerated choices, obligations."""
    def __init__(self, name, sources, harness, vars, obligations, choices=None, init=None, derivs=None, stubs=None,
                 extra=None, max_paths=120, budget=150, qtimeout=3, subst=None, defs=None, seeds=None, thorough=None, maxdec=2000, hs=None,
                 expect_paths=1, skip_flip=None, lax=False, about="", choice_filter=None, min_paths=None, max_eq=1):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Runner:
    def __init__(self, prop, groups, level_note="", assumptions=None, bounds=None):
        self.prop, self.groups = prop, groups
        self.assumptions = assumptions or []
        self.bounds = bounds or []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()

    def known(self):
        f = os.path.join(VERIF, "known_findings.json")
        ks = json.load(open(f))["findings"] if os.path.exists(f) else []
        return [k for k in ks if k["property"] == self.prop]

    # one unit of parallel work
    def task(self, args):
        gi, ch, built = args
        g = self.groups[gi]
        r = Result()
        r.group, r.choices = g.name, ch
        t0 = time.time()
        try:
            self._task(g, ch, built, r)
        except Exception:
            r.error = traceback.format_exc()
        r.wall = time.time() - t0
        return r

    def _task(self, g, ch, built, r):
        rng = random.Random(self.seed * 7919 + zlib.crc32(str(sorted(ch.items())).encode()) % 1000)
        vars_ = g.vars(ch) if callable(g.vars) else g.vars
        init = g.init(ch) if callable(g.init) else (g.init or {})
        derivs = g.derivs(ch) if callable(g.derivs) else g.derivs
        mult = 6 if self.tier == "thorough" else 1
        paths, st = S.explore(built.sym, vars_, init=init, choices=ch, extra=g.extra, max_paths=g.max_paths * mult, budget_s=g.budget * mult,
                              qtimeout=g.qtimeout * (3 if mult > 1 else 1), seed=self.seed, maxdec=g.maxdec, seeds=g.seeds(ch) if callable(g.seeds) else g.seeds, skip_flip=g.skip_flip, max_eq=g.max_eq * (2 if mult > 1 else 1))
        r.stats = st.__dict__
        r.paths = len(paths)
        r.validated = 0
        r.mismatch = []
        for p in paths:
            p.vars_ = vars_
            nat = S.runexe(built.nat, p.inputs, ch)
            p.native = nat
            # translation validation of this path: native outputs against the symbolic run's shadows
            if p.status == "ok" and nat.status == "ok":
                bad = self.compare(p, nat)
                if bad: r.mismatch.append(bad)
                else: r.validated += 1
            elif p.status != nat.status and p.status not in ("declimit", "nodelimit"):
                r.mismatch.append("status %s vs native %s" % (p.status, nat.status))
            if p.status in ("declimit", "nodelimit", "timeout"):
                r.undecided.append(dict(ob="path", why="path not completed: " + p.status, choices=ch, inputs=p.inputs))
                continue
            ctx = PathCtx(p, derivs, g.subst)
            try:
                obs = g.obligations(p, ctx, ch)
            except Exception as e:
                r.undecided.append(dict(ob="obligations", why=traceback.format_exc(), choices=ch, inputs=p.inputs))
                continue
            for ob in obs:
                self.discharge(g, ob, p, ctx, ch, built, vars_, derivs, r, rng)
            if len(r.samples) < 2:
                r.samples.append(dict(group=g.name, choices=ch, inputs={k: p.inputs[k] for k in list(p.inputs)[:6]}, decisions=len(p.decs), dag_nodes=len(p.dag.op), obligations=[o.name for o in obs][:4]))

    @staticmethod
    def compare(p, nat):
        g = p.dag
        for i, o in enumerate(g.op):   # the run must have used the inputs it was given
            if o == S.VAR and g.names[g.name[i]] in p.inputs and g.sh[i] != float(p.inputs[g.names[g.name[i]]]):
                return "input %s: given %r, used %r" % (g.names[g.name[i]], p.inputs[g.names[g.name[i]]], g.sh[i])
        for k, (t, v) in p.outs.items():
            sv = p.dag.sh[v] if t == "s" else v
            if k not in nat.outs: return "output %s missing in native run" % k
            nv = nat.outs[k][1]
            if math.isnan(sv) and math.isnan(nv): continue
            if sv == nv: continue
            if not (abs(sv - nv) <= 1e-9 * max(abs(sv), abs(nv)) + 1e-12):
                return "output %s: symbolic %r native %r" % (k, sv, nv)
        for k, v in p.ints.items():
            if nat.ints.get(k) != v: return "int %s: %r vs %r" % (k, v, nat.ints.get(k))
        return None

    def discharge(self, g, ob, p, ctx, ch, built, vars_, derivs, r, rng):
        try:
            if isinstance(ob, Fact):
                r.facts += 1
                if ob.ok:
                    r.proved.append(ob.name)
                    return
                nat = p.native
                ok = ob.native(nat) if ob.native else True
                if ok:
                    r.violations.append(dict(group=g.name, ob=ob.name, choices=ch, inputs=p.inputs, detail=ob.detail, native_status=nat.status))
                else:
                    r.undecided.append(dict(ob=ob.name, why="not reproduced natively: " + ob.detail, choices=ch, inputs=p.inputs))
                return
            if isinstance(ob, Cond):
                return self.discharge_cond(g, ob, p, ctx, ch, built, vars_, r)
            why = None
            L = R = None
            wrt = dvars(ob.lhs) | dvars(ob.rhs)
            if wrt and any(x in ctx.subst or any(ctx.ring.gens[gg] [:2] == ("var", x) for q_ in ctx.subst.values() for m in q_ for gg, _ in m) for x in wrt):
                r.degenerate += 1   # the path fixes the variable: no derivative within the path
                return
            def attempt(si):
                nonlocal L, R, ectx, why
                try:
                    cx = ctx.alt(si) if si >= 0 else ctx.cut(ob.cut)
                    if cx is None: return False
                    l, rr = cx.poly(ob.lhs), cx.poly(ob.rhs)
                    if L is None and si >= 0: L, R, ectx = l, rr, cx
                    D = cx.ring.add(l, rr, Decimal(-1))
                    D = cx.ring.clear(D, tol=Decimal(ob.tol))
                    bad = {m: cw for m, cw in D.items() if abs(cw[0]) > Decimal(ob.tol) * cw[1]}
                    zr = z3_linear(D, ob.tol, r)
                    if zr == z3.unsat:
                        r.proved.append(ob.name)
                        return True
                    why = why or "solver: %s; terms: %s" % (zr, "; ".join("%s (%.3g of %.3g)" % (mono_str(cx.ring, m), cw[0], cw[1]) for m, cw in list(bad.items())[:4]))
                except (P.Blowup, P.Domain) as e:
                    why = why or "%s: %s" % (type(e).__name__, e)
                return False
            ectx = None
            if r.count.get(ob.name, 0) >= 3:
                return   # shown to fail on three paths of this configuration already
            if ob.cut and not wrt and attempt(-1): return
            why = None
            if attempt(0): return
            # find concrete inputs on this path that show the difference, and replay them natively
            def measure(env):
                try:
                    if L is not None and R is not None:
                        memo = {}
                        full = dict(env)
                        l, rr = ectx.ring.evaluate(L, full, memo), ectx.ring.evaluate(R, full, memo)
                        l, rr = (x.real if hasattr(x, "real") else x for x in (l, rr))
                        gap = abs(l - rr)
                        l, rr, gap = float(l), float(rr), float(gap)
                    else:
                        l = native_eval(ob.lhs, built.nat, env, ch, derivs, hs=g.hs)
                        rr = native_eval(ob.rhs, built.nat, env, ch, derivs, hs=g.hs)
                        gap = abs(l - rr)
                except (ZeroDivisionError, OverflowError, ValueError, P.Domain, TypeError):
                    return None
                if not (math.isfinite(l) and math.isfinite(rr)): return None
                sc = max(abs(l), abs(rr), 1e-300)
                if ob.scale is not None:
                    try: sc = max(sc, abs(native_eval(X.w(ob.scale), built.nat, env, ch, derivs, hs=g.hs)))
                    except Exception: pass
                return gap / sc, env, l, rr
            found = [m for m in map(measure, path_points(p, vars_, rng, kept=ctx.kept)[:25]) if m]
            found.sort(key=lambda m: -m[0])
            best = found[0] if found else None
            nonfinite = self.nonfinite(ob, p, ctx)
            if nonfinite:
                r.violations.append(dict(group=g.name, ob=ob.name, choices=ch, inputs=p.inputs, detail="output %s is not a finite number: %r" % nonfinite, lhs=str(ob.lhs), rhs=str(ob.rhs)))
                return
            if best is None or best[0] < ob.vtol:
                for si in range(1, len(PathCtx.STRATEGIES)):
                    if attempt(si): return
                if L is not None and R is not None and best is not None:
                    best = max(best, climb(measure, found, p, vars_, ctx.kept, rng, ob.vtol), key=lambda m: m[0])
            if best is None or best[0] < ob.vtol:
                r.undecided.append(dict(ob=ob.name, why=(why or "") + " | largest relative difference found %s" % (best and best[0]), choices=ch, inputs=p.inputs))
                return
            rel, env, l, rr = best
            try:
                nl = native_eval(ob.lhs, built.nat, env, ch, derivs, hs=g.hs)
                nr = native_eval(ob.rhs, built.nat, env, ch, derivs, hs=g.hs)
            except Exception as e:
                r.undecided.append(dict(ob=ob.name, why="replay failed: %r" % e, choices=ch, inputs=env))
                return
            gap = abs(l - rr)
            if abs(nl - nr) > 0.3 * gap and abs((nl - nr) - (l - rr)) < 0.7 * gap:
                r.count[ob.name] = r.count.get(ob.name, 0) + 1
                r.violations.append(dict(group=g.name, ob=ob.name, choices=ch, inputs=env, lhs=str(ob.lhs)[:400], rhs=str(ob.rhs)[:400], lhs_native=nl, rhs_native=nr, lhs_exact=l, rhs_exact=rr, relative=rel, why=why))
            else:
                r.undecided.append(dict(ob=ob.name, why="%s | not reproduced: native %r vs %r, exact %r vs %r" % (why, nl, nr, l, rr), choices=ch, inputs=env))
        except Exception:
            r.undecided.append(dict(ob=ob.name, why=traceback.format_exc()[-1500:], choices=ch, inputs=p.inputs))

    @staticmethod
    def nonfinite(ob, p, ctx):
        def walk(e):
            if e.k == "out":
                t, v = p.native.outs.get(e.a[0], ("c", 0.0))
                if not math.isfinite(v): return (e.a[0], v)
            for x in e.a:
                if isinstance(x, X):
                    w = walk(x)
                    if w: return w
            return None
        return walk(ob.lhs) or walk(ob.rhs)

    def discharge_cond(self, g, ob, p, ctx, ch, built, vars_, r):
        cx = S.Z3Ctx(p.dag)
        terms = {}
        for n in ob.needs:
            if n in p.outs:
                t, v = p.outs[n]
                terms[n] = cx.t(v) if t == "s" else cx.const(v)
            else:
                terms[n] = cx.vars.setdefault(n, z3.Real(n))
        s = z3.Solver()
        s.set("timeout", int(ob.timeout * 1000))
        for dd in p.decs: s.add(cx.cond(dd))
        for n, (lo, hi) in vars_.items():
            v = cx.vars.setdefault(n, z3.Real(n))
            s.add(v >= cx.const(lo), v <= cx.const(hi))
        if g.extra:
            for cc in g.extra(cx.vars): s.add(cc)
        goal = ob.fn(terms)
        for cc in cx.side: s.add(cc)
        s.add(z3.Not(goal))
        t0 = time.time()
        a = s.check()
        r.queries += 1
        r.solver_s += time.time() - t0
        if a == z3.unsat:
            r.proved.append(ob.name)
            return
        cands = [dict(p.inputs)]
        if a == z3.sat:
            m = s.model()
            env = dict(p.inputs)
            for n in vars_:
                v = S.model_val(m, cx.vars[n])
                if v is not None: env[n] = v
            cands.insert(0, env)
        cands += path_points(p, vars_, random.Random(self.seed))[1:25]
        for env in cands:
            nat = S.runexe(built.nat, env, ch)
            vals = {}
            for n in ob.needs:
                vals[n] = nat.outs[n][1] if n in nat.outs else env.get(n)
            try:
                if any(v is None or not math.isfinite(v) for v in vals.values()):
                    bad = nat.status == "ok" and any(v is not None and not math.isfinite(v) for v in vals.values())
                else:
                    g0 = z3.simplify(ob.fn({n: cx.const(v) for n, v in vals.items()}))
                    bad = z3.is_false(g0) if not ob.native else not ob.native(vals)
            except Exception:
                continue
            if bad:
                r.violations.append(dict(group=g.name, ob=ob.name, choices=ch, inputs=env, detail=ob.about, values=vals))
                return
        r.undecided.append(dict(ob=ob.name, why="solver %s, no concrete failing input" % a, choices=ch, inputs=p.inputs))

    # ------------------------------------------------------------ main
    def run(self):
        pid = self.prop
        tasks, builts = [], {}
        try:
            for gi, g in enumerate(self.groups):
                if self.tier != "thorough" and g.thorough == "only": continue
                b = B.build(pid + "-" + g.name, g.sources, g.harness if isinstance(g.harness, list) else [g.harness], g.stubs, g.defs, ["lax"] if g.lax else None)
                builts[gi] = b
                names = list(g.choices or {})
                for combo in itertools.product(*[(range(v) if isinstance(v, int) else v) for v in (g.choices or {}).values()]):
                    ch = dict(zip(names, combo))
                    if g.choice_filter and not g.choice_filter(ch): continue
                    tasks.append((gi, ch, b))
        except B.BuildError as e:
            # the tree does not compile: nothing was decided
            print("BUILD-ERROR", str(e)[-3000:])
            return self.finish([], {}, error="build: " + str(e)[-500:])
        t_build = time.time() - self.t0
        global _RUNNER
        _RUNNER = self
        with mpc.get_context("fork").Pool(min(8, max(1, len(tasks)))) as pool:
            results = pool.map(_call, tasks, chunksize=1)
        return self.finish(results, builts, t_build=t_build)

    def finish(self, results, builts, error=None, t_build=0):
        pid = self.prop
        nv = nk = 0
        viol, und, known_hits = [], [], {}
        known = self.known()
        errs = [r.error for r in results if getattr(r, "error", None)]
        for r in results:
            for v in r.violations:
                k = next((k for k in known if k.get("status") == "known" and fnmatch.fnmatchcase(v["group"], k.get("group", "*")) and fnmatch.fnmatchcase(v["ob"], k["obligation"])
                          and all(v["choices"].get(a) == b for a, b in k.get("choices", {}).items())), None)
                if k: known_hits.setdefault(k["id"], (k, v))
                else: viol.append(v)
            if getattr(r, "error", None): r.undecided.append(dict(ob="task", why=r.error[-1500:], choices=r.choices, inputs={}))
            und += [dict(group=r.group, **u) for u in r.undecided]
            und += [dict(group=r.group, ob="translation", why=m, choices=r.choices, inputs={}) for m in getattr(r, "mismatch", [])]
        for kid, (k, v) in sorted(known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        seen = set()
        if os.environ.get("VERIF_ALL"):
            agg, by = {}, {}
            for r in results:
                for v in r.violations: agg.setdefault((r.group, json.dumps({k: x for k, x in r.choices.items() if x})), set()).add(v["ob"])
            for (gn, ch), o in agg.items(): by.setdefault((gn, tuple(sorted(o))), []).append(ch)
            for (gn, o), chs in list(by.items())[:int(os.environ["VERIF_ALL"])]: print("  V", gn, o[:8], len(o), "|", len(chs), "configurations:", *chs[:4])
            print("  distinct", len(agg))
        for i, v in enumerate(viol):
            key = (v["group"], v["ob"])
            if key in seen: continue
            seen.add(key)
            path = os.path.join(VERIF, "out", "%s-replay-%d.json" % (pid, len(seen)))
            v["property"] = pid
            v["replay"] = "python3-vt /verif/checks/run.py --replay %s" % path
            with open(path, "w") as f: json.dump(v, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   group %s, obligation %s: %s" % (v["group"], v["ob"], v.get("detail") or "lhs=%r rhs=%r at %s" % (v.get("lhs_native"), v.get("rhs_native"), {k: v["inputs"][k] for k in list(v["inputs"])[:8]})))
        proved = sum(len(r.proved) for r in results)
        for u in und[:40]:
            print("UNDECIDED %s/%s: %s" % (u["group"], u["ob"], str(u["why"])[:600]))
        st = [r.stats for r in results if hasattr(r, "stats")]
        tot = lambda k: sum(s[k] for s in st)
        unexpl = [u for s in st for u in s["unexplored"]]
        fns = sorted({f for b in builts.values() for f in b.functions})
        vac = []
        for gi, g in enumerate(self.groups):
            rs = [r for r in results if r.group == g.name]
            if gi in builts and not any(r.proved for r in rs) and not any(r.violations for r in rs):
                vac.append(g.name)
        cov = dict(states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=sum(getattr(r, "validated", 0) for r in results),
                   samples=[s for r in results for s in r.samples][:6],
                   obligations=proved + len(viol) + len(und), discharged=proved,
                   undecided=len(und), undecided_list=[{k: str(u[k])[:200] for k in ("group", "ob", "why")} for u in und[:20]],
                   known_findings=sorted(known_hits), solver="z3 %s" % z3.get_version_string(),
                   solver_queries=sum(r.queries for r in results) + tot("queries"), solver_seconds=round(sum(r.solver_s for r in results) + tot("solver_s"), 2),
                   branch_sides_refuted=tot("unsat"), branch_sides_reached=tot("sat") + tot("numeric"), branch_sides_unexplored=len(unexpl), degenerate_equality_combinations_not_explored=tot("eq_skipped"), unexplored=sorted(set(unexpl))[:10],
                   diverged_runs=tot("diverged"), executions=tot("runs"), concrete_facts=sum(r.facts for r in results),
                   groups=[dict(name=g.name, sources=g.sources, choices={k: (v if isinstance(v, int) else len(list(v))) for k, v in (g.choices or {}).items()}) for g in self.groups],
                   functions_encoded=len(fns), functions_sample=fns[:60], vacuous_groups=vac, bounds=self.bounds,
                   explanation="concolic symbolic execution of the LLVM IR of the real sources; verification conditions decided by z3 over reals for all inputs on each path")
        ev = dict(property=pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
        print("%s: paths %d, decisions %d, obligations proved %d, undecided %d, violations %d, known %d, unexplored sides %d, validated paths %d, queries %d (%.1fs), build %.1fs, wall %.1fs" % (
            pid, cov["states"], cov["transitions"], proved, len(und), len(viol), len(known_hits), len(unexpl), cov["traces_validated_against_impl"], cov["solver_queries"], cov["solver_seconds"], t_build, ev["wall_s"]))
        if os.environ.get("VERIF_TIMES"):
            for r in sorted(results, key=lambda r: -r.wall)[:12]: print("  %6.1fs %s %s paths %s" % (r.wall, r.group, r.choices, getattr(r, "paths", None)))
        if vac: print("VACUOUS groups:", vac)
        if viol: return 1
        return 3 if error else 0

    def replay(self, v):
        """Run the recorded inputs on the natively compiled code of the current tree; 1 when the violation shows again."""
        g = next(x for x in self.groups if x.name == v["group"])
        b = B.build(self.prop + "-" + g.name, g.sources, g.harness if isinstance(g.harness, list) else [g.harness], g.stubs, g.defs, ["lax"] if g.lax else None)
        ch, env = v["choices"], {k: float(x) for k, x in v["inputs"].items()}
        vars_ = g.vars(ch) if callable(g.vars) else g.vars
        p = S.runexe(b.sym, env, ch)
        p.native = nat = S.runexe(b.nat, env, ch)
        p.vars_ = vars_
        print("inputs", env, "choices", ch, "native status", nat.status)
        for k, (t, x) in sorted(nat.outs.items()): print("   %s = %r" % (k, x))
        derivs = g.derivs(ch) if callable(g.derivs) else g.derivs
        ctx = PathCtx(p, derivs, g.subst)
        r = Result()
        r.group, r.choices = g.name, ch
        for ob in g.obligations(p, ctx, ch):
            if ob.name == v["ob"]:
                self.discharge(g, ob, p, ctx, ch, b, vars_, derivs, r, random.Random(1))
        for x in r.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, "again"))
            print(json.dumps(x, indent=1, default=str)[:3000])
        return 1 if r.violations else 0


def _call(args):
    return _RUNNER.task(args)
