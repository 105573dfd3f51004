"""developer helper: dag.py <spec> <group> <output> choice=val ...: print the expression an output has on the first path"""
import sys; sys.path.insert(0, "/verif")
import importlib
from engine import build as B, symx as S
m = importlib.import_module("checks.specs." + sys.argv[1]); R = m.runner()
g = [x for x in R.groups if x.name == sys.argv[2]][0]
b = B.build(sys.argv[1] + "-" + g.name, g.sources, g.harness if isinstance(g.harness, list) else [g.harness], g.stubs, g.defs, ["lax"] if g.lax else None)
ch = {k: (0 if isinstance(v, int) else list(v)[0]) for k, v in (g.choices or {}).items()}
for a in sys.argv[4:]:
    k, v = a.split("="); ch[k] = int(v)
vars_ = g.vars(ch) if callable(g.vars) else g.vars
p = S.runexe(b.sym, {k: (lo + hi) / 2 for k, (lo, hi) in vars_.items()}, ch)
print(p.status, p.note if hasattr(p, "note") else "", len(p.decs), p.ints)
d = p.dag
OPS = {}
def s(i, depth=8):
    o = d.op[i]
    nm = d.names[d.name[i]] if d.name[i] >= 0 and d.name[i] < len(d.names) else ""
    kids = [] if o <= 1 else d.args.get(i) or [x for x in (d.a[i], d.b[i]) if x >= 0]
    if depth == 0: return "..."
    lab = ("op%d" % o) + (":" + nm if nm else "")
    return lab + ("(%s)" % ", ".join(s(x, depth - 1) for x in kids) if kids else "=%g" % d.sh[i])
for o in sys.argv[3].split(","):
    print(o, s(p.outs[o][1])[:3000])
