"""Reaction equations."""
import functools
from .common import *
Eq = functools.partial(Eq, tol=1e-12, vtol=1e-12)

META = dict(
    title="A reaction equation gives every species its net coefficient",
    statement="Reading a reaction equation gives each species the sum of the coefficients it has in the equation, negative on the left and positive on the right, and only the species of that equation: coefficients may be absent (one), signed, separated by blanks or not; names may carry charges and begin with a parenthesis; species may repeat on one or both sides; a side may be empty; blanks, tabs and line breaks do not matter. What the reaction contained before does not remain. The equation is kept, and is the symbol if the reaction has none.",
    over=["inputs", "configurations", "histories"], qtext="all coefficient values in 14 shapes of equations, after no, another equation or explicit reactants",
    why="Properties of reactions given as equations follow from these coefficients; the tests read a few equations of one shape.",
    files=["ThermoFun/Reaction.cpp"],
    mech=[("parts of an equation", "ThermoFun/Reaction.cpp: Impl::fromEquation, regexp_split, strip_all"), ("coefficient of a part", "ThermoFun/Reaction.cpp: Impl::extractCoef")],
    observe=["Reaction::fromEquation", "Reaction::reactants"],
    note="The text-to-double function of the C library is replaced by one that gives the free value of a token.")

a, b, e, f = var("a"), var("b"), var("c"), var("d")
ONE = c(1)
WANT = {0: dict(A=-a, B=-b, C=e, D=f), 1: dict(A=-ONE, B=-ONE, C=ONE), 2: dict(A=-a, B=-b, C=e), 3: dict(A=a, B=-ONE, C=-ONE), 4: dict(A=e - a - ONE, B=c(0), C=b + ONE), 5: dict(A=-a), 6: dict(A=a),
        7: {"Ca+2": -ONE, "CO3-2": -a, "CaCO3": b}, 8: {"(CH3)2": -a, "B": -ONE, "(OH)2": b, "(H)": ONE}, 9: dict(A=-a, B=-b, C=e, D=ONE), 10: {"A": -a, "B": -ONE, "C": ONE, "(D)": ONE},
        11: {"H2O@": -ONE, "H+": ONE, "OH-": ONE}, 12: {"Fe+3": -a, "e-": -b, "Fe+2": e}, 13: {"(A)": ONE, "B": -ONE, "C": c(2)}}


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    obs.append(Fact("no error", not p.ints.get("raised"), "an exception was thrown", lambda n: n.ints.get("raised")))
    if p.ints.get("raised"): return obs
    w = WANT[ch["form"]]
    # a species whose coefficients cancel may be left out
    got = set(p.outs)
    need = {k for k in w if not (ch["form"] == 4 and k == "B")}
    ok = lambda g: need <= set(g) and set(g) <= set(w)
    obs.append(Fact("species of the equation", ok(got), "%s" % sorted(got), lambda n: not ok(n.outs)))
    obs += [Eq("coefficient of " + k, out(k), w[k]) for k in w if k in got]
    for n in ("symbol", "equation"): obs.append(Fact(n, p.strs.get(n) == "ok", p.strs.get(n), lambda nn, n=n: nn.strs.get(n) != "ok"))
    return obs


GROUPS = [Group("equation", ["Reaction.cpp", "Common/Exception.cpp"], ["equation.cpp"], vars={k: (0.01, 50) for k in "abcd"}, obligations=obligations, choices={"form": 14, "before": 3, "name": 2})]


def runner():
    return Runner("Q01", GROUPS, bounds=["14 shapes of equations, up to six parts"])
