"""Volume (pressure) corrections of solids."""
from .common import *

META = dict(
    title="Solid volume models: V, S, H, Cp are the derivatives of the same Gibbs energy",
    statement="For every solid volume model (Berman 1988 polynomial, Holland-Powell Landau transition, Murnaghan, Birch-Murnaghan) the increments satisfy dG/dP=V, dG/dT=-S, H=G+TS and Cp=dH/dT at every temperature and pressure on each side of a transition, and U=H-PV, A=U-TS hold for the result. Properties other than the increments pass through unchanged, and the increments equal the published closed forms.",
    over=["inputs"], qtext="all temperatures, pressures, reference states and model coefficients within the stated ranges, both sides of the Landau transition, with and without a volume of transition, including T or P equal to the reference",
    why="No stable test evaluates a solid volume model; consistency between five coupled closed forms with free coefficients is a statement over all inputs.",
    files=["ThermoFun/Substances/Solids/SolidBerman88.cpp", "ThermoFun/Substances/Solids/SolidHPLandau.cpp", "ThermoFun/Substances/Solids/SolidMurnaghanHP98.cpp", "ThermoFun/Substances/Solids/SolidBMGottschalk.cpp", "ThermoFun/ThermoModelsSubstance.cpp"],
    mech=[("increments of G,H,S,V,Cp", "ThermoFun/Substances/Solids/*.cpp"), ("unit conversion Pa to bar", "ThermoFun/ThermoModelsSubstance.cpp")],
    observe=["MinBerman88/HPLandau/MinMurnaghanEOSHP98/MinBMGottschalk::thermoProperties"])

PROPS = ("G", "H", "S", "Cp", "V", "Cv", "U", "A")


def vars_(ch):
    v = {"T": (280, 1500), "P": (1, 20000), "Tr": (290, 310), "Pr": (0.9, 1.1), "V0": (0.5, 20)}
    for n in PROPS: v["i" + n] = (-1e3, 1e3)
    m = ch["model"]
    if m == 0:
        for i, s in enumerate((1e-4, 1e-7, 1e-9, 1e-6, 1e-11)): v["vc%d" % i] = (-s, s)
    if m in (1, 2):
        v.update(Tc=(100, 900), Smax=(1, 20), Vmax=(0.01, 2))
        if m == 2: del v["Vmax"]
    if m in (1, 2, 3): v.update(k0=(100, 3000), a0=(0.1, 10))
    if m == 4:
        for i, s in enumerate(((1e-6, 1e-4), (1e-9, 1e-7), (-1, 1), (0, 1), (0, 1), (1e4, 2e5), (-20, -1), (2, 7), (-1e-4, -1e-6))): v["bm%d" % i] = s
    return v


def init(ch):
    d_ = {"T": 500, "P": 3000, "Tr": 298.15, "Pr": 1.0, "Tc": 400}
    return d_


def passthrough(): return [Eq(n + " unchanged", out(n), var("i" + n)) for n in ("Cv",)]


def murn(T, P, V0):
    k0, a0, Tr = var("k0"), var("a0") * c(Decimal("1e-5")), var("Tr")
    k = k0 * (c(1) - c(Decimal("1.5e-4")) * (T - Tr))
    Vt = V0 * (c(1) + a0 * (T - Tr) - c(20) * a0 * (sqrt(T) - sqrt(Tr)))
    X = c(1) + c(F(4, 1000)) * P / k
    return Vt, k, X


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    m = ch["model"]
    I = p.inputs
    atref = (ch["at"] & 1 or I["T"] == I["Tr"]) and (ch["at"] & 2 or I["P"] == I["Pr"])
    T, P, Tr, Pr, V0 = var("T"), var("P"), var("Tr"), var("Pr"), var("V0")
    if ch["at"] & 1: T = Tr
    if ch["at"] & 2: P = Pr
    obs += passthrough()
    if m == 4: return obs
    skip = set()
    if ch["at"] & 1: skip |= {"dG/dT=-S", "dH/dT=Cp", "TdS/dT=Cp", "dS/dP=-dV/dT"} | {n + " temperature derivative member" for n in PROPS}
    if ch["at"] & 2: skip |= {"dG/dP=V", "dS/dP=-dV/dT"} | {n + " pressure derivative member" for n in PROPS}
    if m == 3 and atref: skip |= {"dG/dP=V"}
    if ch["at"]:
        obs += [Eq("U=H-PV", out("U"), out("H") - P * out("V")), Eq("A=U-TS", out("A"), out("U") - T * out("S")),
                Eq("H=G+TS", out("H") - var("iH"), out("G") - var("iG") + T * (out("S") - var("iS")))]
        if ch["at"] == 3 and m in (0,):
            obs += [Eq("no increment of %s at the reference" % n, out(n), var("i" + n)) for n in ("G", "H", "S", "Cp")]
    else:
        obs += maxwell(ins="i", skip=skip | ({"dG/dP=V"} if m == 0 else set()))
        if m == 0: obs.append(Eq("dG/dP=V", d(out("G"), "P"), out("V")))
    dT, dP = T - Tr, P - Pr
    if m == 0:
        vc = [var("vc%d" % i) for i in range(5)]
        obs.append(Eq("V", out("V"), V0 * (c(1) + vc[0] * dT + vc[1] * dT * dT + vc[2] * dT ** 3 + vc[3] * dP + vc[4] * dP * dP)))
        obs.append(Eq("G", out("G"), var("iG") + V0 * dP * (c(1) + vc[0] * dT + vc[1] * dT * dT + vc[2] * dT ** 3 + vc[3] * dP / c(2) + vc[4] * dP * dP / c(3))))
    elif m == 3 and not atref:
        Vt, k, X = murn(T, P, V0)
        obs.append(Eq("V", out("V"), var("iV") + Vt * X ** F(-1, 4)))
        obs.append(Eq("G", out("G"), var("iG") + c(F(1000, 3)) * Vt * k * (X ** F(3, 4) - c(1))))
    elif m in (1, 2):
        Vm = var("Vmax") if m == 1 else c(0)
        S, Tc0 = var("Smax"), var("Tc") + c(Decimal("273.15"))
        Tc = Tc0 + Vm / S * P
        Q0 = sqrt(c(1) - Tr / Tc0)   # Q298^2
        Vt, k, X = murn(T, P, Vm * Q0)
        below = p.inputs["T" if not ch["at"] & 1 else "Tr"] < p.inputs["Tc"] + 273.15 + (p.inputs["Vmax"] / p.inputs["Smax"] * p.inputs["P" if not ch["at"] & 2 else "Pr"] if m == 1 else 0)
        G = S * Tc0 * (Q0 - Q0 ** 3 / c(3)) - T * S * Q0 + c(F(1000, 3)) * Vt * k * (X ** F(3, 4) - c(1))
        if below:
            Q = sqrt(c(1) - T / Tc)
            G = G + S * ((T - Tc) * Q + Tc * Q ** 3 / c(3))
        obs.append(Eq("G", out("G"), var("iG") + G))
    return obs


SRC = ["Substances/Solids/SolidBerman88.cpp", "Substances/Solids/SolidHPLandau.cpp", "Substances/Solids/SolidMurnaghanHP98.cpp", "Substances/Solids/SolidBMGottschalk.cpp",
       "ThermoModelsSubstance.cpp", "Substance.cpp", "Common/Exception.cpp"]
BMSTUB = {"_ZN9ThermoFun9BM_VolumeEN9Reaktoro_8PressureENS0_16ThermoScalarBaseIdEES3_S3_S3_S3_": "_ZN10verif_stub5bmvolEN9Reaktoro_8PressureENS0_16ThermoScalarBaseIdEES3_S3_S3_S3_"}



def bm_vars(ch):
    v = vars_(dict(ch, model=4, at=0))
    if ch["bm"] != 1:
        del v["P"]
        v["v"] = (1, 200)
    if ch["kpp0"]: del v["bm8"]
    return v


def bm_init(ch): return {"T": 500, "P": 30000, "Tr": 298.15, "Pr": 1.0, "V0": 4.0, "v": 38.0, "bm0": 3e-5, "bm1": 1e-8, "bm2": 0.1, "bm5": 1.2e5, "bm6": -15, "bm7": 4.5, "bm8": -4e-5}


def bm_obl(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok" or "absent" in p.ints: return obs
    T = var("T")
    if ch["bm"] == 2: return [Eq("the volume solved for satisfies the equation of state", out("v1"), var("v"))]
    if p.inputs["T"] == p.inputs["Tr"]: return obs
    P = out("P") if ch["bm"] == 0 else var("P")
    obs += [Eq("H=G+TS", out("H") - var("iH"), out("G") - var("iG") + T * (out("S") - var("iS"))),
            Eq("U=H-PV", out("U"), out("H") - P * out("V")), Eq("A=U-TS", out("A"), out("U") - T * out("S")), Eq("Cp unchanged", out("Cp"), var("iCp"))]
    if ch["bm"] == 0:
        obs += [Eq("dG/dP=V along the equation of state", d(out("G"), "v"), (out("V") - var("iV")) * d(out("P"), "v")),
                Eq("V", out("V") - var("iV"), var("v") / c(10))]
    else:
        obs += [Eq("S is -dG/dT (central difference of the model)", (out("S") - var("iS")) * c(Decimal("0.2")), -(out("G+") - out("G-")))]
    return obs


def runner():
    g = Group("closed", SRC, ["solid.cpp", "stub_json.cpp"], vars_, obligations, choices={"model": 4, "at": 4}, init=init)
    src = ["Substances/Solids/SolidBMGottschalk.cpp"] + [s for s in SRC if "Solids" not in s]
    b = [Group("birch" + k, src, ["solid.cpp", "stub_json.cpp"], bm_vars, bm_obl, choices={"model": [4], "at": [0], "kpp0": 2, "bm": w}, init=bm_init, stubs=BMSTUB if k == "" else None, defs=["BM"], maxdec=60, max_paths=12)
         for k, w in (("", [0, 1]), ("vol", [2]))]
    return Runner("V01", [g] + b, bounds=["280..1500 K, 1..20000 bar, coefficients within the ranges of published data", "Birch-Murnaghan: the volume is an implicit solution (free variable, resp. unknown function); its entropy is a central difference over 0.2 K, checked against the model's own Gibbs energies at T+0.1 and T-0.1"])
