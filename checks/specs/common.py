from fractions import Fraction as F
from engine.vc import *

OKNAT = lambda n: n.status != "ok"


def returns(p):
    """fact: the run of this path ends normally"""
    return Fact("returns normally", p.status == "ok", "run ended with " + p.status, OKNAT)


def maxwell(pre="", T="T", P="P", pbar=1.0, ins="", skip=(), members=True, S0=None, obs_prefix="", tol=1e-9, legendre=True, Pexpr=None, vtol=1e-6):
    """Thermodynamic identities between the outputs of one path.
    P variable is in bar*pbar^-1..: V in J/bar, dG/d(P in bar) = V.  ins: prefix of the input properties
    the corrections are added to (constants), '' when the outputs are complete."""
    o = lambda n: out(pre + n)
    i = (lambda n: var(ins + n)) if ins else (lambda n: c(0))
    Tv, Pv = var(T), (Pexpr if Pexpr is not None else var(P) * c(pbar))
    r = []
    kw = dict(tol=tol, vtol=vtol)

    def add(n, l, rr): 
        if n not in skip: r.append(Eq(obs_prefix + n, l, rr, **kw))
    add("dG/dT=-S", d(o("G"), T), -(o("S") - i("S")))
    add("dG/dP=V", d(o("G"), P), (o("V") - i("V")) * c(pbar))
    add("dH/dT=Cp", d(o("H"), T), o("Cp") - i("Cp"))
    add("TdS/dT=Cp", Tv * d(o("S"), T), o("Cp") - i("Cp"))
    add("dS/dP=-dV/dT", d(o("S"), P), -d(o("V"), T) * c(pbar))
    if legendre:
        add("H=G+TS", o("H") - i("H"), o("G") - i("G") + Tv * (o("S") - i("S")))
    add("U=H-PV", o("U"), o("H") - Pv * o("V"))
    add("A=U-TS", o("A"), o("U") - Tv * o("S"))
    if members:
        for n in ("G", "H", "S", "Cp", "V", "U", "A"):
            add(n + " temperature derivative member", o(n + "_T"), d(o(n), T))
            add(n + " pressure derivative member", o(n + "_P") * c(1e5 * pbar), d(o(n), P))
    return r

import os
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
