"""Records in JSON."""
import os, re, functools
from .common import *

META = dict(
    title="Every number of a record reaches the object in the unit of the models",
    statement="Parsing the JSON record of an element, a substance or a reaction puts every number of the record - reference properties and their errors, molar mass, compressibility and expansivity, reference temperature and pressure, temperature limits, the coefficients of every model, transition properties, intervals and stoichiometric coefficients - into the object, converted from the unit the record states to the unit the models use; without a stated unit it is taken to be in the model's unit already. A number the record leaves out, as null, empty or absent, does not change any other number of the object: it is zero (its default) with the status not defined. The method codes select the calculation methods of the engine, aggregate state, class, charge, number and names are those of the record; a substance that names a reaction and no method is calculated from the reaction. Repeated reactants add up.",
    over=["inputs", "configurations"], qtext="all values of all numbers of a record; eight ways to state units for every field, five ways to leave each field out, with and without the envelope of the graph database, every method code",
    why="Every result starts from these numbers; a test that reads a database compares a handful of them, and every field, unit and gap is a case of its own.",
    files=["ThermoFun/Common/ParseJsonToData.cpp", "ThermoFun/GlobalVariables.h", "ThermoFun/ThermoParameters.h", "ThermoFun/Common/Units.cpp"],
    mech=[("scalars with error and unit", "ThermoFun/Common/ParseJsonToData.cpp: readValueErrorUnit, read_value_unit"), ("coefficient lists", "ThermoFun/Common/ParseJsonToData.cpp: read_values_units, convert_values_units"), ("records", "ThermoFun/Common/ParseJsonToData.cpp: parseElement, parseSubstance, parseReaction"), ("method codes", "ThermoFun/GlobalVariables.h: new_old_s_methodtype, new_old_r_methodtype")],
    observe=["parseElement", "parseSubstance", "parseReaction"],
    note="The text-to-double function of the C library is replaced by one that gives the free value of a token; the JSON parser itself (nlohmann) runs as it is. Two unit texts of the shipped databases that are known to be wrong (kbar for the expansivity, 1e-05/K for the compressibility) and a short unit list of HKF coefficients are read the way the code documents. Lists that contain null elements, and the pressure limits, which the parser ignores, are outside the claim.")

Eq = functools.partial(Eq, tol=Decimal("1e-6"), vtol=1e-6)
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "harness")
UNITS = {}
for n, body in re.findall(r'^X\("(\w+)", (.*)\);$', open(os.path.join(H, "json_units.inc")).read(), re.M):
    UNITS[n] = [tuple(re.findall(r'"([^"]*)"', g)) for g in re.findall(r'\{([^}]*)\}', body)]
SI = dict(J=1, cal=F("4.184"), kJ=1000, mol=1, K=1, bar=10**5, kbar=10**8, MPa=10**6, Pa=1, g=F("0.001"), kg=1, mg=F("0.000001"), cm=F("0.01"), m=1)


def si(u):
    if u in ("", "1"): return F(1)
    e = re.sub(r"\^(0\.5|1\.5)", "", u).replace("^", "**")
    return F(eval(e, {k: F(v) for k, v in SI.items()}))


def conv(x, frm, to):
    if frm == to or frm == "": return x
    if to == "degC": return x - c(Decimal("273.15"))
    if frm == "degC": return x + c(Decimal("273.15"))
    f = si(frm) / si(to)
    return x * c(f) if f != 1 else x


ELEM = ["entropy", "heat_capacity", "atomic_mass", "volume"]
SREF = ["sm_heat_capacity_p", "sm_gibbs_energy", "sm_enthalpy", "sm_entropy_abs", "sm_volume"]
SSC = ["mass_per_mole", "m_expansivity", "m_compressibility"]
SLIST = ["eos_akinfiev_diamond_coeffs", "eos_gas_crit_props", "eos_hkf_coeffs", "m_heat_capacity_ft_coeffs", "m_phase_trans_props", "m_landau_phase_trans_props", "solute_holland_powell98_coeff"]
RREF = ["logKr", "drsm_heat_capacity_p", "drsm_gibbs_energy", "drsm_enthalpy", "drsm_entropy", "drsm_volume"]
RLIST = ["logk_ft_coeffs", "dr_heat_capacity_ft_coeffs", "dr_volume_fpt_coeffs", "dr_ryzhenko_coeffs", "dr_marshall_franck_coeffs", "dr_dolejs_manning10_coeffs"]
PLAIN = ["Tst", "Pst", "lowerT", "upperT"]
FIELDS = [ELEM, SREF + SSC + PLAIN + SLIST, RREF + PLAIN + RLIST, SREF + SSC + PLAIN + SLIST]
AGG = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 101]
CLS = [0, 1, 2, 3, 4, 5, 101]
# method codes of the records: (kind of method, code of the engine)
SCODE = {0: (0, 100), 1: (1, 203), 2: (0, 101), 3: (0, 119), 4: (2, 320), 5: (1, 201), 6: (1, 202), 8: (2, 311), 9: (2, 312), 10: (2, 313), 11: (2, 314), 12: (2, 315), 13: (2, 316), 14: (2, 317),
         25: (0, 117), 26: (0, 118), 27: (0, 120), 28: (0, 121), 29: (1, 206), 30: (1, 207), 31: (1, 221), 32: (1, 222), 33: (1, 223), 34: (2, 305), 35: (2, 306), 36: (2, 307), 37: (2, 308), 38: (2, 309), 39: (2, 310), 40: (2, 300), 41: (0, 122), 42: (0, 123), 43: (1, 200)}
RCODE = {0: (0, 102), 1: (0, 105), 2: (0, 104), 3: (1, 208), 4: (1, 209), 5: (1, 210), 6: (1, 211), 7: (1, 212), 8: (1, 213), 9: (1, 214), 10: (1, 216), 11: (0, 100), 12: (2, 306), 13: (2, 305), 14: (1, 224)}


def keep(ch):
    k, n = ch["kind"], len(FIELDS[ch["kind"]])
    if ch["at"] >= n: return False
    sweep = not ch["style"] and not ch["gap"] and not ch["at"] and not ch["wrap"]
    if k == 0 and ch["code"]: return False
    if k == 3: return sweep and ch["code"] in (0, 1, 2, 34)
    if k == 1 and ch["code"]: return sweep and ch["code"] in SCODE
    if k == 2 and ch["code"]: return sweep and ch["code"] in RCODE
    if not ch["gap"] and ch["at"]: return False
    if ch["wrap"] and ch["gap"]: return False
    if ch["gap"]: return ch["style"] in (0, 1, 4) and (ch["gap"] in (1, 3) if FIELDS[k][ch["at"]] in PLAIN else ch["gap"] != 1 or FIELDS[k][ch["at"]] != "solute_holland_powell98_coeff")
    return True


def obligations(p, ctx, ch):
    obs = [returns(p)]
    if p.status != "ok": return obs
    I, k, st = p.ints, ch["kind"], ch["style"]
    obs.append(Fact("no error", not I.get("raised"), "an exception was thrown: %s" % p.strs.get("what"), lambda n: n.ints.get("raised")))
    if I.get("raised"): return obs
    gone = {FIELDS[k][ch["at"]]: ch["gap"]} if ch["gap"] else {}

    def unit(u, i):
        if st in (1, 2, 3, 7): return u[0]
        return u[0] if st == 0 or st == 6 and i else u[1] if st in (4, 6) else u[2]

    def is_(name, want): obs.append(Fact(name, I.get(name) == want, "%s, not %s" % (I.get(name), want), lambda n: n.ints.get(name) != want))

    def scalar(n, err=False, sta=False):
        u = UNITS[n][0]
        frm = unit(u, 0)
        if n == "m_expansivity" and frm == "kbar": w = lambda x: x * c(10**5)
        elif n == "m_compressibility" and frm == "1e-05/K": w = lambda x: x
        else: w = lambda x: conv(x, frm, u[0])
        obs.append(Eq(n, out(n), c(0) if n in gone else w(var(n))))
        if err: obs.append(Eq("error of " + n, out(n + "_e"), c(0) if n in gone else w(var(n + "_e"))))
        if sta: is_(n + "_sta", 0 if n in gone else 1)

    def lst(n):
        us = UNITS[n]
        if n in gone: is_(n + "_n", 0); return
        is_(n + "_n", len(us))
        if I.get(n + "_n") != len(us): return
        hack = n == "eos_hkf_coeffs" and st == 5
        for i, u in enumerate(us):
            v = n + ("_%d" % i if len(us) > 1 else "")
            obs.append(Eq(v, out(v), conv(var(v), u[0] if hack else unit(u, i), u[0])))

    def plain(n, d): obs.append(Eq(n, out(n), c(d) if n in gone else var(n)))

    def names(want): obs.append(Fact("names", p.strs.get("names") == want, "%r" % p.strs.get("names"), lambda n: n.strs.get("names") != want))

    if k == 0:
        for n in ELEM: scalar(n)
        for n, w in (("number", 27), ("class", 4), ("isotope", 61)): is_(n, w)
        names("Xx|Element X|")
        return obs
    if k == 2:
        for n in RREF: scalar(n, True, True)
        for n in RLIST: lst(n)
        is_("nreac", 2)
        if I.get("nreac") == 2: obs += [Eq("coefficient of the repeated reactant", out("reac_A"), var("nA") + var("nA2")), Eq("coefficient of the other", out("reac_B"), var("nB"))]
        names("RX|Reaction X|")
        m = {2: 305}; code = RCODE
    else:
        for n in SREF: scalar(n, True, True)
        for n in SSC[:3 if k == 1 or ch["code"] % 2 else 1]: scalar(n)   # compressibility and expansivity belong to the methods
        is_("charge", -3); is_("agg", AGG[ch["code"] % 17]); is_("cls", CLS[ch["code"] % 7])
        names("Xx@|Substance X|Na|0|Cl|" + ("RX" if k == 3 else "") + "|")
        m = {}; code = SCODE
        has = k == 1 or ch["code"] % 2
        is_("reacdc", 0 if has else 1)
        if has:
            two = SCODE[ch["code"]][0] != 0 or ch["code"] == 0
            for n in SLIST:
                if n in ("m_heat_capacity_ft_coeffs", "m_phase_trans_props"):
                    is_("ncp" if n[2] == "h" else "ntr", (n not in gone) + two)
                    if not two or n in gone: continue
                lst(n)
            if two:
                is_("c_n", 2); is_("p_n", 1)
                obs += [Eq(a, out(a), var(a)) for a in ("c0", "c1", "p0")]
                m[0] = 100
            iv = ([0] if ch["code"] == 0 else []) + ([1] if two else [])
            is_("nti", len(iv))
            if I.get("nti") == len(iv):
                for i, j in enumerate(iv):
                    is_("tn%d" % i, 2)
                    obs += [Eq("limit %d of interval %d" % (b, i), out("i%d" % (2 * i + b)), var("t%d" % (2 * j + b))) for b in (0, 1)]
        else:
            for n in ("ncp", "ntr", "nti"): is_(n, 0)
    for n in ("helmholtz", "internal", "cv"): is_(n + "_sta", 0)
    plain("Tst", Decimal("298.15")); plain("Pst", 100000); plain("lowerT", 0); plain("upperT", 0)
    if k != 3 or ch["code"] % 2:
        a, b = code[ch["code"]]
        # the second method of the record is read after the first
        for j, n in enumerate(("gen", "mt", "mp")): is_(n, m.get(j, b if a == j else 0))
    return obs


def vars_(ch):
    k = ch["kind"]
    v = {}
    for n in FIELDS[k]:
        if n in PLAIN: v[n] = (1.0, 1e4); continue
        for i in range(len(UNITS[n])): v[n + ("_%d" % i if len(UNITS[n]) > 1 else "")] = (1.0, 1e3)
        if n in SREF + RREF: v[n + "_e"] = (1.0, 1e3)
    for n in {0: [], 2: ["nA", "nB", "nA2"]}.get(k, ["t0", "t1", "t2", "t3", "c0", "c1", "p0"]): v[n] = (1.0, 9.0)
    return v


GROUPS = [Group("records", ["Common/ParseJsonToData.cpp", "Common/Units.cpp", "Common/Exception.cpp", "Element.cpp", "Substance.cpp", "Reaction.cpp", "Database.cpp"], ["json.cpp"], vars=vars_, obligations=obligations,
                choices={"kind": 4, "code": 44, "wrap": 2, "style": 8, "gap": 6, "at": 20}, choice_filter=keep)]


def runner():
    return Runner("J01", GROUPS, bounds=["coefficient lists of full length", "one field left out at a time", "two methods per record", "values between 1 and 1e4"])
