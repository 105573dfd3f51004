"""Normal forms for the expression DAG: generalised Laurent polynomials over generators.

A polynomial is {monomial: (coef, mass)}; a monomial is a sorted tuple ((gen, exponent), ...).
Coefficients are 60-digit decimals; `mass` is the sum of the absolute values of everything that was
added up into the coefficient, so |coef| <= tol*mass says that the terms cancel to relative tol.
Generators: input variables, multi-term bases (denominators, radicands), exp(monomial), log(base),
other functions, uninterpreted functions.  Exponents are rational or (for exp generators) decimals.
"""
import math
from decimal import Decimal, getcontext, localcontext
from fractions import Fraction
from . import symx

getcontext().prec = 60
getcontext().Emax = 10 ** 9
getcontext().Emin = -10 ** 9
D0, D1 = Decimal(0), Decimal(1)


class Blowup(Exception):
    pass


class Domain(Exception):
    pass


TRACE = False
LIMIT = 60000


class Ring:
    def __init__(self, derivs=None, shadows=None, eager=True, common=0):
        self.eager, self.ncommon = eager, common   # normal-form strategy: expand powers; bring sums to a common denominator (up to so many terms)
        self.gens = []          # (kind, data, shadow)
        self.key = {}
        self.derivs = derivs or {}   # (varname, wrt) -> varname or Poly-building callable
        self.dcache = {}
        self.shadow = shadows or {}
        self.ufderiv = None
        self.exact = True

    # -- generators
    def gen(self, kind, data, shadow):
        k = (kind, data)
        if k not in self.key:
            self.key[k] = len(self.gens)
            self.gens.append((kind, data, shadow))
        return self.key[k]

    def const(self, c):
        c = Decimal(c)
        return {(): (c, abs(c))} if c else {}

    def var(self, name):
        g = self.gen("var", name, self.shadow.get(name, 1.0))
        return {((g, Fraction(1)),): (D1, D1)}

    def add(self, p, q, s=D1):
        if len(p) < len(q) and s == D1:
            p, q = q, p
        r = dict(p)
        a = abs(s)
        for m, (c, w) in q.items():
            if m in r:
                c0, w0 = r[m]
                r[m] = (c0 + s * c, w0 + a * w)
            else:
                r[m] = (s * c, a * w)
        return r

    def scale(self, p, s):
        a = abs(s)
        return {m: (c * s, w * a) for m, (c, w) in p.items()} if s else {}

    @staticmethod
    def mmul(m, n):
        if not m: return n
        if not n: return m
        d = dict(m)
        for g, e in n:
            x = d.get(g)
            if x is None:
                d[g] = e
            else:
                y = x + e
                if y == 0: del d[g]
                else: d[g] = y
        return tuple(sorted(d.items()))

    def mul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > LIMIT * 4:
            raise Blowup("product %dx%d" % (len(p), len(q)))
        r = {}
        mm = self.mmul
        for m, (c, w) in p.items():
            for n, (d, x) in q.items():
                k = mm(m, n)
                t = r.get(k)
                if t is None: r[k] = (c * d, w * x)
                else: r[k] = (t[0] + c * d, t[1] + w * x)
        if len(r) > LIMIT:
            raise Blowup("%d terms" % len(r))
        return r

    def clean(self, p, tol=Decimal("1e-40")):
        """Drop terms that cancelled to working precision."""
        return {m: cw for m, cw in p.items() if abs(cw[0]) > tol * cw[1]}

    def round(self, p):
        """Drop terms that cancelled to the rounding of the constants in the code, before they become part of a generator."""
        return self.clean(p, Decimal("1e-14")) or self.clean(p)

    def shadow_mono(self, m):
        v = 1.0
        for g, e in m:
            v *= self.gens[g][2] ** float(e)
        return v

    def shadow_poly(self, p):
        try:
            return math.fsum(float(c) * self.shadow_mono(m) for m, (c, w) in p.items())
        except (OverflowError, ZeroDivisionError):
            return float("nan")

    # -- factor out content: p = c * mono * q with q canonical (>= 2 terms) or q = None
    def content(self, p):
        if len(p) == 1:
            (m, (c, w)), = p.items()
            return c, m, None
        it = iter(p)
        first = dict(next(it))
        mins = dict(first)
        alln = [first]
        for m in it:
            d = dict(m)
            alln.append(d)
        gens = set().union(*[set(d) for d in alln])
        common = {}
        for g in gens:
            es = [d.get(g, 0) for d in alln]
            e = min(es)
            if e < 0 and not self.ncommon and self.gens[g][0] != "var":
                e = min(0, max(es)) # only what is common to all terms
            if e != 0:
                common[g] = e
        mono = tuple(sorted(common.items()))
        inv = tuple((g, -e) for g, e in mono)
        q = {self.mmul(m, inv): cw for m, cw in p.items()}
        lead = min(q, key=lambda m: (tuple((g, e) for g, e in m)))
        c = q[lead][0]
        q = {m: (x / c, w / abs(c)) for m, (x, w) in q.items()}
        if self.shadow_poly(q) < 0:
            # positive on the path, so that fractional powers and logarithms use the same generator
            c, q = -c, {m: (-x, w) for m, (x, w) in q.items()}
        return c, mono, q

    def pkey(self, q):
        with localcontext() as cx:
            cx.prec = 12
            return tuple(sorted(((m, +c) for m, (c, w) in q.items())))

    def base(self, q):
        sh = self.shadow_poly(q)
        g = self.gen("base", self.pkey(q), sh)
        self.__dict__.setdefault("bpoly", {}).setdefault(g, q)
        return g

    def cpow(self, c, e):
        """c**e for a positive decimal, rational e."""
        if e == 1: return c
        if e == int(e): return c ** int(e)
        return (Decimal(e.numerator) / Decimal(e.denominator) * c.ln()).exp() if isinstance(e, Fraction) else (Decimal(e) * c.ln()).exp()

    def power(self, p, e):
        e = Fraction(e)
        p = self.clean(p) if e == int(e) and e > 0 else self.round(p)
        if not p:
            if e > 0: return {}
            raise Domain("0 to a non-positive power")
        if e == 0: return self.const(1)
        if e == 1: return p
        if e == int(e) and e > 0 and (len(p) == 1 or self.eager and len(p) ** int(e) <= (600 if self.ncommon else 100) and int(e) <= 8):
            r = p
            for _ in range(int(e) - 1):
                r = self.mul(r, p)
            if len(p) > 1 and len(r) <= 200:
                # remember the expansion as a power, so that its inverse does not become another base
                c1, m1, q1 = self.content(p)
                c2, m2, q2 = self.content(r)
                if q1 is not None and q2 is not None:
                    g = self.base(q1)
                    k = self.mmul(tuple((h, x * e) for h, x in m1), tuple((h, -x) for h, x in m2))
                    self.__dict__.setdefault("powers", {})[self.pkey(q2)] = (c1 ** int(e) / c2, k, g, e)
            return r
        p = self.common(p)
        c, mono, q = self.content(p)
        if e == int(e):
            cc = c ** int(e)
        else:
            if c < 0:
                if q is None:
                    # negative coefficient: the monomial must be negative on the path
                    raise Domain("fractional power of a negative monomial")
                q = {m: (-x, w) for m, (x, w) in q.items()}
                c = -c
            cc = self.cpow(c, e)
        m = tuple((g, x * e if not isinstance(x, Decimal) else x * Decimal(e.numerator) / Decimal(e.denominator)) for g, x in mono)
        if q is not None:
            pw = self.__dict__.get("powers", {}).get(self.pkey(q))
            if pw and (e == int(e) or pw[0] > 0):
                cc *= pw[0] ** int(e) if e == int(e) else self.cpow(pw[0], e)
                m = self.mmul(m, tuple((h, x * e) for h, x in pw[1]))
                m = self.mmul(m, ((pw[2], pw[3] * e),))
            else:
                m = self.mmul(m, ((self.base(q), e),))
        return {m: (cc, abs(cc))}

    def common(self, p):
        """Bring the terms to a common denominator, so that equal quantities get the same base generator."""
        if len(p) < 2 or not self.ncommon or not any(self.gens[g][0] == "base" for m in p for g, _ in m):
            return p
        try:
            return self.clean(self.clear(p, self.ncommon)) or p
        except Blowup:
            return p

    def div(self, p, q):
        q = self.round(q)
        if not q: raise Domain("division by zero")
        return self.mul(p, self.power(q, -1))

    @staticmethod
    def efrac(c):
        with localcontext() as cx:
            cx.prec = 16
            # absolute rounding for ordinary sizes, so that exponents differing by an integer still do
            return Fraction(round(c, 12)) if Decimal("0.01") < abs(c) < 1000 else Fraction(round(c, 14 - c.adjusted()))

    def exp(self, p):
        r = {(): (D1, D1)}
        for m, (c, w) in sorted(p.items()):
            if abs(c) <= Decimal("1e-14") * w: continue
            if m == ():
                r = self.scale(r, c.exp())
                continue
            # exp(c*log(g)) = g**c
            if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]][0] == "log":
                k = self.gens[m[0][0]][1]
                fr = Fraction(c) if c == c.to_integral_value() else Fraction(float(c)).limit_denominator(1000)
                ex = fr if abs(Decimal(fr.numerator) / Decimal(fr.denominator) - c) < Decimal("1e-13") * abs(c) else self.efrac(c)
                r = {self.mmul(n, ((k, ex),)): x for n, x in r.items()}
                continue
            g = self.gen("E", m, math.exp(max(-300, min(300, self.shadow_mono(m)))))
            ex = self.efrac(c)
            known = self.__dict__.setdefault("exps", {}).setdefault(g, [])
            near = next((k for k in known if abs(k - ex) <= abs(ex) * Fraction(1, 10 ** 13)), None)
            if near is None: known.append(ex)
            else: ex = near
            r = {self.mmul(n, ((g, ex),)): x for n, x in r.items()}
        return r

    def log(self, p):
        p = self.common(self.round(p))
        c, mono, q = self.content(p)
        if c < 0:
            if q is None:
                raise Domain("log of a negative monomial")
            q = {m: (-x, w) for m, (x, w) in q.items()}
            c = -c
        ln = c.ln()
        r = {(): (ln, max(abs(ln), D1))} if ln else {}   # a rounded argument leaves an absolute error
        todo = list(mono)
        if q is not None:
            todo.append((self.base(q), Fraction(1)))
        for g, e in todo:
            kind, data, s = self.gens[g]
            ed = Decimal(e.numerator) / Decimal(e.denominator) if isinstance(e, Fraction) else Decimal(e)
            if kind == "E":
                t = {data: (ed, abs(ed))}
            else:
                lg = self.gen("log", g, math.log(s) if s > 0 else float("nan"))
                t = {((lg, Fraction(1)),): (ed, abs(ed))}
            r = self.add(r, t)
        return r

    def fn(self, name, args, sh):
        k = tuple(self.pkey(self.clean(a)) for a in args)
        g = self.gen("fn", (name, k), sh)
        self.__dict__.setdefault("fargs", {})[g] = args
        return {((g, Fraction(1)),): (D1, D1)}

    # -- differentiation
    def dgen(self, g, x):
        k = (g, x)
        if k in self.dcache:
            return self.dcache[k]
        kind, data, sh = self.gens[g]
        if kind == "var":
            if data == x: r = self.const(1)
            else:
                dv = self.derivs.get((data, x))
                if dv is None: r = {}
                elif isinstance(dv, str): r = self.var(dv)
                else: r = dv(self)
        elif kind == "base":
            r = self.diff(self.bpoly[g], x)
        elif kind == "E":
            r = self.mul({((g, Fraction(1)),): (D1, D1)}, self.diff({data: (D1, D1)}, x))
        elif kind == "log":
            r = self.mul({((data, Fraction(-1)),): (D1, D1)}, self.dgen(data, x))
        else:
            name, _ = data
            args = self.fargs[g]
            r = {}
            self_g = {((g, Fraction(1)),): (D1, D1)}
            for i, a in enumerate(args):
                da = self.diff(a, x)
                if not self.clean(da): continue
                r = self.add(r, self.mul(da, self.dfn(name, args, i, self_g, g)))
        self.dcache[k] = r
        return r

    def dfn(self, name, args, i, self_g, g):
        a = args[i]
        sh = self.gens[g][2]
        one = self.const(1)
        if name == "sin": return self.fn("cos", [a], math.cos(self.shadow_poly(a)))
        if name == "cos": return self.scale(self.fn("sin", [a], math.sin(self.shadow_poly(a))), Decimal(-1))
        if name == "acos": return self.scale(self.power(self.add(one, self.mul(a, a), Decimal(-1)), Fraction(-1, 2)), Decimal(-1))
        if name == "asin": return self.power(self.add(one, self.mul(a, a), Decimal(-1)), Fraction(-1, 2))
        if name == "atan": return self.power(self.add(one, self.mul(a, a)), -1)
        if name == "cbrt":
            return self.scale(self.power(self_g, -2), D1 / 3)
        if name.startswith("uf:"):
            if self.ufderiv:
                return self.ufderiv(self, name[3:], args, i)
            return self.fn(name + ".d%d" % i, args, 1.0)
        raise Blowup("no derivative rule for " + name)

    def diff(self, p, x):
        r = {}
        for m, (c, w) in p.items():
            for g, e in m:
                dg = self.dgen(g, x)
                if not dg: continue
                rest = self.mmul(m, ((g, Fraction(-1)),))
                ed = Decimal(e.numerator) / Decimal(e.denominator) if isinstance(e, Fraction) else e
                r = self.add(r, self.mul({rest: (c * ed, w * abs(ed))}, dg))
        if len(r) > LIMIT: raise Blowup("derivative: %d terms" % len(r))
        return r

    # -- zero test: returns the residual after clearing denominators / radicals
    def clear(self, p, limit=LIMIT, tol=None):
        """tol: terms that have cancelled to tol need no clearing and are set aside."""
        p = dict(p)
        rest_ = {}
        if tol is not None:
            q = self.partial(p)
            if q is not None:
                nb = lambda d: len({g for m in d for g, _ in m if self.gens[g][0] == "base"})
                k = {m: cw for m, cw in q.items() if abs(cw[0]) > tol * cw[1]}
                if not k: return q
                if nb(k) < nb(p): p, rest_ = k, {m: cw for m, cw in q.items() if m not in k}
        for _ in range(60):
            if tol is not None:
                keep = {m: cw for m, cw in p.items() if abs(cw[0]) > tol * cw[1]}
                if len(keep) < len(p):
                    rest_ = self.add(rest_, {m: cw for m, cw in p.items() if m not in keep})
                    p = keep
                if not p: return rest_
            # pick the outermost base generator occurring with exponents differing by an integer
            occ = {}
            for m in p:
                seen = set()
                for g, e in m:
                    if self.gens[g][0] == "base":
                        occ.setdefault(g, set()).add(e)
                        seen.add(g)
            for m in p:
                ds = {g for g, _ in m}
                for g in occ:
                    if g not in ds:
                        occ[g].add(Fraction(0))
            todo = []
            for g, es in occ.items():
                cl = {}
                for e in es:
                    cl.setdefault(e % 1, []).append(e)
                mins = {f: min(v) for f, v in cl.items()}
                if any(len(v) > 1 for v in cl.values()) or any(f == 0 and min(v) > 0 for f, v in cl.items() if len(p) > 1):
                    todo.append((g, mins))
            todo = [(g, mins) for g, mins in todo if self._reducible(p, g, mins)]
            if not todo:
                return self.add(p, rest_) if rest_ else p
            # outermost first (bases are created after what they contain), or the cheapest one when terms may be set aside
            g, mins = max(todo, key=lambda t: t[0]) if tol is None else min(todo, key=lambda t: (self._growth(p, *t), -t[0]))
            bp = self.bpoly[g]
            if TRACE: print("     clear", len(p), "gen", g, "size", len(bp), "mins", [str(v) for v in mins.values()], "cost", self._growth(p, g, mins), "alts", [(t[0], self._growth(p, *t)) for t in todo])
            r = {}
            pw = {0: self.const(1), 1: bp}
            for m, cw in p.items():
                e = dict(m).get(g, Fraction(0))
                f = e % 1
                lo = mins[f]
                if lo > 0 and f == 0: lo = Fraction(0)
                k = int(e - lo)
                while k not in pw:
                    j = max(pw)
                    pw[j + 1] = self.mul(pw[j], bp)
                rest = tuple((h, x) for h, x in m if h != g)
                if lo != 0:
                    rest = self.mmul(rest, ((g, lo),))
                for n, (c, w) in pw[k].items():
                    q = self.mmul(rest, n)
                    t = r.get(q)
                    if t is None: r[q] = (c * cw[0], w * cw[1])
                    else: r[q] = (t[0] + c * cw[0], t[1] + w * cw[1])
                if len(r) > limit: raise Blowup("clearing denominators: %d terms" % len(r))
            p = r
        raise Blowup("clear does not terminate")

    def partial(self, p, limit=LIMIT):
        """Partial fractions for bases b = a h + r linear in another generator h, r constant: no term keeps both b and h.
        None when nothing applies."""
        used = False
        for g in sorted({g for m in p for g, _ in m if self.gens[g][0] == "base"}):
            b = self.bpoly[g]
            if len(b) != 2 or () not in b: continue
            (h,) = [m for m in b if m]
            if len(h) != 1: continue
            a, r = b[h][0], b[()][0]
            h, e0 = h[0]   # b = a h^e0 + r
            res, work, steps = {}, dict(p), 0
            while work:
                nxt = {}
                for m, (c, w) in work.items():
                    e = dict(m); k, j = e.get(h, 0), e.get(g, 0)
                    if k and j:
                        x = k / e0 if type(k) is type(e0) else float(k) / float(e0)
                        k = round(x) if abs(x - round(x)) < (1e-15 if isinstance(x, float) else Decimal("1e-20") if isinstance(x, Decimal) else Fraction(1, 10 ** 20)) else 0
                    if not k or not j:
                        t = res.get(m)
                        res[m] = (c, w) if t is None else (t[0] + c, t[1] + w)
                        continue
                    used = True
                    base = tuple((x, y) for x, y in m if x != h and x != g)
                    # h = (b - r)/a;  1/(h) = (a/r)(b/(a h) - 1)
                    if k > 0: parts = ((k - 1, j + 1, 1 / a), (k - 1, j, -r / a))
                    else: parts = ((k, j + 1, 1 / r), (k + 1, j, -a / r))
                    for kk, jj, f in parts:
                        mm = self.mmul(base, tuple((x, y) for x, y in sorted(((h, kk * e0), (g, jj))) if y))
                        t = nxt.get(mm)
                        nxt[mm] = (c * f, w * abs(f)) if t is None else (t[0] + c * f, t[1] + w * abs(f))
                work, steps = nxt, steps + 1
                if steps > 40 or len(work) + len(res) > limit: return None
            p = res
        return p if used else None

    def _growth(self, p, g, mins):
        n, tot = len(self.bpoly[g]), 0
        for m in p:
            e = dict(m).get(g, Fraction(0))
            lo = mins[e % 1]
            if lo > 0 and e % 1 == 0: lo = Fraction(0)
            tot += n ** min(int(e - lo), 8)
        return tot

    def _reducible(self, p, g, mins):
        for m in p:
            e = dict(m).get(g, Fraction(0))
            lo = mins[e % 1]
            if lo > 0 and e % 1 == 0: lo = Fraction(0)
            if e != lo: return True
        return False

    # -- high-precision numeric evaluation
    def evaluate(self, p, env, memo=None):
        import mpmath as mp
        memo = {} if memo is None else memo

        def ge(g):
            if g in memo: return memo[g]
            kind, data, _ = self.gens[g]
            if kind == "var": v = mp.mpf(env[data])
            elif kind == "base": v = pe(self.bpoly[g])
            elif kind == "E": v = mp.exp(me(data))
            elif kind == "log": v = mp.log(ge(data))
            else:
                a = [pe(x) for x in self.fargs[g]]
                n = data[0]
                if n.startswith("uf:"):
                    if ".d" in n:
                        base, ds = n[3:].split(".d", 1)
                        i = int(ds.split(".d")[0])
                        h = mp.mpf(10) ** -6 * (abs(a[i]) + 1)
                        lo, hi = [float(t) for t in a], [float(t) for t in a]
                        lo[i] -= float(h); hi[i] += float(h)
                        v = mp.mpf((symx.ufval(base, hi) - symx.ufval(base, lo)) / (2 * float(h)))
                    else:
                        v = mp.mpf(float(symx.ufval(n[3:], [float(t) for t in a])))
                else:
                    v = getattr(mp, n)(*a)
            memo[g] = v
            return v

        def xp(v, e):
            if isinstance(e, Fraction):
                return v ** int(e) if e.denominator == 1 else mp.power(v, mp.mpf(e.numerator) / e.denominator)
            return mp.power(v, mp.mpf(str(e)))

        def me(m):
            v = mp.mpf(1)
            for g, e in m: v *= xp(ge(g), e)
            return v

        def pe(q):
            t = mp.mpf(0)
            for m, (c, w) in q.items(): t += mp.mpf(str(c)) * me(m)
            return t
        with mp.workdps(50):
            return pe(p)


def from_dag(ring, g, roots, subst=None):
    """Polynomials of the DAG nodes `roots`.  subst: {node id or var name: Poly}."""
    memo = ring.__dict__.setdefault("memo", {}).setdefault(id(g), {})
    subst = subst or {}
    S = symx
    for root in roots:
        st = [root]
        while st:
            i = st[-1]
            if i in memo:
                st.pop(); continue
            if i in subst:
                memo[i] = subst[i]; st.pop(); continue
            o = g.op[i]
            if o == S.CONST:
                if not math.isfinite(g.imm[i]): raise Domain("non-finite constant")
                memo[i] = ring.const(Decimal(g.imm[i])); st.pop(); continue
            if o == S.VAR:
                n = g.names[g.name[i]]
                ring.shadow.setdefault(n, g.sh[i])
                memo[i] = subst[n] if n in subst else ring.var(n); st.pop(); continue
            ch = g.args.get(i, []) if o == S.UFN else ([g.a[i], g.b[i]] if o in (S.ADD, S.SUB, S.MUL, S.DIV, S.POW, S.FN2) else [g.a[i]])
            todo = [c for c in ch if c not in memo]
            if todo:
                st.extend(todo); continue
            x = [memo[c] for c in ch]
            if o == S.ADD: r = ring.add(x[0], x[1])
            elif o == S.SUB: r = ring.add(x[0], x[1], Decimal(-1))
            elif o == S.MUL: r = ring.power(x[0], 2) if ch[0] == ch[1] else ring.mul(x[0], x[1])
            elif o == S.DIV: r = ring.div(x[0], x[1])
            elif o == S.NEG: r = ring.scale(x[0], Decimal(-1))
            elif o == S.POW:
                b = ring.clean(x[1])
                if not b: r = ring.const(1)
                elif len(b) == 1 and () in b:
                    c = b[()][0]
                    e = Fraction(c)
                    e2 = e.limit_denominator(10 ** 7)
                    if abs(e - e2) < abs(e) * Fraction(1, 10 ** 14): e = e2
                    r = ring.power(x[0], e)
                else:
                    r = ring.exp(ring.mul(b, ring.log(x[0])))
            elif o == S.EXP: r = ring.exp(x[0])
            elif o == S.LOG: r = ring.log(x[0])
            elif o == S.SQRT: r = ring.power(x[0], Fraction(1, 2))
            elif o == S.FN1:
                n = g.names[g.name[i]]
                if n == "log10": r = ring.scale(ring.log(x[0]), D1 / Decimal(10).ln())
                elif n == "log2": r = ring.scale(ring.log(x[0]), D1 / Decimal(2).ln())
                elif n == "cbrt" and g.sh[g.a[i]] > 0: r = ring.power(x[0], Fraction(1, 3))
                elif n == "exp2": r = ring.exp(ring.scale(x[0], Decimal(2).ln()))
                elif n == "sinh" or n == "cosh":
                    s = Decimal(1 if n == "cosh" else -1)
                    r = ring.scale(ring.add(ring.exp(x[0]), ring.scale(ring.exp(ring.scale(x[0], Decimal(-1))), s)), Decimal("0.5"))
                else: r = ring.fn(n, x, g.sh[i])
            elif o == S.FN2: r = ring.fn(g.names[g.name[i]], x, g.sh[i])
            else: r = ring.fn("uf:" + g.names[g.name[i]], x, g.sh[i])
            if len(r) > LIMIT: raise Blowup("%d terms" % len(r))
            memo[i] = r
            st.pop()
    return [memo[r] for r in roots]
