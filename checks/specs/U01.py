"""Unit conversion."""
import os, re, functools
from .common import *

META = dict(
    title="Unit conversion scales by the defining factor and rejects mismatched units",
    statement="units::convert multiplies any value by the factor the unit definitions give, and the conversion back restores it: for every unit of the table to its SI base units and for compound units with products, quotients, nested parentheses and integer or half-integer powers; between the temperature scales it is the affine map. Units are convertible exactly if their dimensions agree, for every pair of the table; a conversion between different dimensions and an ill-formed or unknown unit string raise an error, and never give a number.",
    over=["inputs", "configurations"], qtext="all values, every unit of the table against its SI expansion in both directions, every pair of table units, 40 compound expressions, all 64 pairs of temperature scales, 21 ill-formed unit strings",
    why="Parsers and output convert every number of a database or batch with this function; a wrong dimension entry makes a conversion silently wrong or impossible, and the tests touch a handful of units.",
    files=["ThermoFun/Common/Units.cpp", "ThermoFun/Common/Units.hpp"],
    mech=[("parsing of unit expressions", "ThermoFun/Common/Units.cpp: parseUnit"), ("factors and dimensions", "ThermoFun/Common/Units.cpp: factor, dimension, derivedUnitsMap"), ("temperature scales", "ThermoFun/Common/Units.cpp: toKelvin, fromKelvin")],
    observe=["units::convert", "units::convertible"],
    note="Factors are compared to 1e-6 relative (the table rounds some of them); the inverse conversion to 1e-12. The degree sign units in compound expressions are their own dimension and are outside the claim.")

Eq = functools.partial(Eq, tol=Decimal("1e-6"), vtol=1e-6)
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness")


def table(f): return [(a, Decimal(b), d) for a, b, d in re.findall(r'^[UE]\("([^"]*)", ([^,]+), "([^"]*)"\)', open(os.path.join(H, f)).read(), re.M)]


UNITS = table("units.inc")
COMP = table("units_compound.inc")
NBAD = 21
# K in terms of each scale: K = (t + add) * num/den
SC = {"K": (0, F(1)), "degC": (F("273.15"), F(1)), "degF": (F("459.67"), F(5, 9)), "degR": (0, F(5, 9))}
SCALES = ["K", "degC", "degF", "degR"] * 2


def obligations(p, ctx, ch):
    w, i = ch["what"], p.ints
    obs = [returns(p)]
    if p.status != "ok": return obs
    if w in (0, 2):
        t = UNITS if w == 0 else COMP
        for k, (n, f, d) in enumerate(t):
            obs.append(Fact("%s can be converted to %s" % (n, d), i.get("ok%d" % k) == 1, "not convertible", lambda nn, k=k: nn.ints.get("ok%d" % k) != 1))
            if i.get("ok%d" % k) != 1: continue
            obs += [Eq("%s in %s" % (n, d), out("to%d" % k), var("v") * c(f), scale=lambda p, f=f: abs(float(f) * p["v"])),
                    Eq("%s in %s" % (d, n), out("back%d" % k) * c(f), var("v"))]
            if w == 2: obs.append(Fact("%s times candela is not convertible to %s" % (n, d), i["no%d" % k] == 0, "a number is returned", lambda nn, k=k: nn.ints["no%d" % k] != 0))
    elif w == 1:
        for k, (n, f, d) in enumerate(UNITS):
            obs.append(Fact("%s is convertible to exactly the units of its dimension" % n, i["pairs%d" % k] == 0, "%d units of the table disagree" % i["pairs%d" % k], lambda nn, k=k: nn.ints["pairs%d" % k] != 0))
            obs.append(Fact("converting %s raises exactly for other dimensions" % n, i["raise%d" % k] == 0, "%d units of the table disagree" % i["raise%d" % k], lambda nn, k=k: nn.ints["raise%d" % k] != 0))
    else:
        for a in range(8):
            for b in range(8):
                (x, y), (z, u) = SC[SCALES[a]], SC[SCALES[b]]
                obs.append(Eq("%s to %s (%d%d)" % (SCALES[a], SCALES[b], a, b), out("t%d%d" % (a, b)), (var("v") + c(x)) * c(y / u) - c(z), tol=Decimal("1e-9"), vtol=1e-9, scale=lambda p: abs(p["v"]) + 500))
        obs.append(Fact("K is not convertible to m", i["tm"] == 0, "", lambda nn: nn.ints["tm"] != 0))
        for k in range(NBAD): obs.append(Fact("ill-formed unit %d raises" % k, i["bad%d" % k] == 0, "converted without error (1: from it, 2: to it): %d" % i["bad%d" % k], lambda nn, k=k: nn.ints["bad%d" % k] != 0))
    return obs


GROUPS = [Group("convert", ["Common/Units.cpp"], ["units.cpp"], vars=dict(v=(-1e6, 1e6), w=(1, 9)), obligations=obligations, choices={"what": 4}, init=dict(v=37.5, w=2))]


def runner():
    return Runner("U01", GROUPS, bounds=["%d table units, %d compound expressions, all pairs of table units for convertibility" % (len(UNITS), len(COMP)), "values between -1e6 and 1e6"])
