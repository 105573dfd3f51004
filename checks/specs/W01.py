"""Helmholtz functions of water."""
from .common import *
from engine.poly import Decimal
from . import water_tables as W
import functools
Eq = functools.partial(Eq, tol=1e-8, vtol=1e-7)

META = dict(
    title="Water equations of state: published Helmholtz functions, exact derivatives",
    statement="For every temperature and density, the Helmholtz energies of water of the Haar-Gallagher-Kell and the Wagner-Pruss (IAPWS-95) equations of state are the published functions with the published coefficients; all nine first, second and third derivatives returned with them with respect to temperature and density are the derivatives of that function; the pressure derived from each equation of state is density squared times its density derivative; and the Wagner-Pruss saturation pressure, saturated liquid and saturated vapour density are the published functions of temperature up to the critical point.",
    over=["inputs"], qtext="all temperatures 260 to 1300 K and densities 0.001 to 1400 kg/m3; saturation curves 273.16 to 647.09 K",
    why="The derivative formulas are hand-made sums of some hundred terms; no stable test evaluates water, and sampled values cannot show that an expression is the derivative of another.",
    files=["ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp", "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp", "ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp"],
    mech=[("Helmholtz functions and derivatives", "waterHelmholtzStateHGK, waterHelmholtzStateWagnerPruss"), ("pressure and saturation", "WaterUtils.cpp: waterPressure*, waterSaturated*WagnerPruss")],
    observe=["waterHelmholtzStateHGK, waterHelmholtzStateWagnerPruss", "waterPressureHGK, waterPressureWagnerPruss, waterSaturatedPressureWagnerPruss, waterSaturatedLiquidDensityWagnerPruss, waterSaturatedVapourDensityWagnerPruss"],
    note="The published coefficient tables are kept in checks/specs/water_tables.py.")

SRC = ["Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp", "Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp", "Substances/Solvent/Reaktoro/WaterUtils.cpp", "Common/Exception.cpp"]
TC, DC, PC = (c(Decimal(x)) for x in ("647.096", "322", "22064000"))
F_ = lambda t: [float(x) for x in t]
one = c(1)


def total(terms):
    r = terms[0]
    for t in terms[1:]: r = r + t
    return r


def vars_(ch):
    if ch["eos"] == 2: return {"q": (1e-5, 0.5778)}
    return {"T": (260, 1300), "D": (0.001, 1400)}


def wagner_pruss(T, D):
    tau, de = TC / T, D / DC
    no, ga, n, d_, t_, c_ = (F_(x) for x in (W.W_no, W.W_gammao, W.W_n, W.W_d, W.W_t, W.W_c))
    r = [log(de) + c(no[1]) + c(no[2]) * tau + c(no[3]) * log(tau)]
    r += [c(no[i]) * log(one - one / exp(c(ga[i - 4]) * tau)) for i in range(4, 9)]
    pw = lambda x, e: x ** F(e) if e else one
    for i in range(1, 52):
        x = c(n[i]) * pw(de, int(d_[i])) * pw(tau, t_[i])
        r.append(x * exp(-(de ** int(c_[i]))) if i > 7 else x)
    for i in range(52, 55):
        j = i - 52
        r.append(c(n[i]) * pw(de, int(d_[i])) * pw(tau, t_[i]) * exp(c(-20) * (de - 1) * (de - 1) - c([150, 150, 250][j]) * (tau - c([1.21, 1.21, 1.25][j])) ** 2))
    dd = (de - 1) * (de - 1)
    for i in (55, 56):
        j = i - 55
        th = one - tau + c(0.32) * dd ** F(5, 3)
        De = th * th + c(0.2) * dd ** F(7, 2)
        r.append(c(n[i]) * De ** F(["0.85", "0.95"][j]) * de * exp(-c([28, 32][j]) * dd - c([700, 800][j]) * (tau - 1) * (tau - 1)))
    return c(461.51805) * T * total(r)


def hgk(T, D):
    t, r = T / c(647.27), D / c(317.763)
    A0, A1, yc, A3, A4 = (F_(x) for x in (W.H_A0, W.H_A1, W.H_yc, W.H_A3, W.H_A4))
    p = lambda x, k: x ** k if k else one
    s = [(c(A0[0]) + c(A0[1]) * t) * log(t)] + [c(A0[i]) * p(t, i - 4) for i in range(2, 18)]
    s += [r * c(A1[i]) * p(t, 1 - i) for i in range(5)]
    y = r * (c(yc[0]) + c(yc[1]) * log(t) + c(yc[2]) * t ** -3 + c(yc[3]) * t ** -5)
    x = one / (one - y)
    s.append(c(0.42923415e1) * t * (log(r * x) - c(130 / 3) * x + c(169 / 6) * x * x - c(14) * y))
    z = one - exp(-c(0.317763) * r)
    s += [c(A3[i]) * p(t, -int(W.H_li[i])) * z ** int(W.H_ki[i]) for i in range(36)]
    ri, ti = F_(W.H_ri), F_(W.H_ti)
    for i in range(4):
        de, ta = (r - c(ri[i])) / c(ri[i]), (t - c(ti[i])) / c(ti[i])
        s.append(c(A4[i]) * p(de, int(W.H_ni[i])) * exp(-c(float(W.H_alpha[i])) * de ** int(W.H_mi[i]) - c(float(W.H_beta[i])) * ta * ta))
    return c(69595.89) * total(s)


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    o, T = out, var("T")
    if ch["eos"] == 2:
        th, T = var("q"), TC * (one - var("q"))
        s = lambda cs: total([c(float(a)) * th ** F(e) for a, e in cs])
        h = F(1, 6)
        return obs + [
            Eq("saturation pressure", o("ps"), PC * exp(TC / T * s([("-7.85951783", 1), ("1.84408259", F(3, 2)), ("-11.7866497", 3), ("22.6807411", F(7, 2)), ("-15.9618719", 4), ("1.80122502", F(15, 2))]))),
            Eq("saturated liquid density", o("dl"), DC * (one + s([("1.99274064", 2 * h), ("1.09965342", 4 * h), ("-0.510839303", 10 * h), ("-1.75493479", 32 * h), ("-45.5170352", 86 * h), ("-6.74694450e+05", 220 * h)])), tol=1e-7, vtol=1e-6),
            Eq("saturated vapour density", o("dv"), DC * exp(s([("-2.03150240", 2 * h), ("-2.68302940", 4 * h), ("-5.38626492", 8 * h), ("-17.2991605", 18 * h), ("-44.7586581", 37 * h), ("-63.9201063", 71 * h)])), tol=1e-7, vtol=1e-6)]
    D = var("D")
    obs.append(Eq("Helmholtz energy", o("h"), (wagner_pruss if ch["eos"] else hgk)(T, D)))
    for n in ("", "T", "D", "TT", "TD", "DD"):
        for k in "TD":
            m = "".join(sorted(n + k, reverse=True))
            obs.append(Eq("dh%s/d%s=h%s" % (n, k, m), d(o("h" + n), k), o("h" + m)))
    obs.append(Eq("p=D^2 hD", o("p"), D * D * o("hD")))
    return obs + [Fact("no exception", p.ints["raised"] == 0, "exception", lambda n: n.ints.get("raised") != 0)]


def init(ch): return {"q": 0.3} if ch["eos"] == 2 else {"T": 500, "D": 838.025}


def runner():
    g = Group("helmholtz", SRC, ["water.cpp"], vars_, obligations, choices={"eos": [0, 1, 2]}, init=init, qtimeout=0.4)
    return Runner("W01", [g], bounds=["260..1300 K, 0.001..1400 kg/m3; saturation curves 273.16..647.09 K; the density iteration is outside"])
