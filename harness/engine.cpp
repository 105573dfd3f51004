// ThermoEngine with uninterpreted models: which models run, with which arguments, and how their results are combined.
#include "models_uf.h"
#include "ThermoFun/ThermoEngine.h"
#include "ThermoFun/Database.h"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/Element.h"
using EOS = MethodGenEoS_Thrift; using MT = MethodCorrT_Thrift; using MP = MethodCorrP_Thrift;
static const EOS::type eoss[] = {EOS::type(0), EOS::CTPM_CON, EOS::CTPM_CPT, EOS::CTPM_HKF, EOS::CTPM_HKFR, EOS::CTPM_HP98, EOS::CTPM_AN91};
static const MT::type mts[] = {MT::type(0), MT::CTM_CHP, MT::CTM_CST};
static const MP::type mps[] = {MP::type(0), MP::CPM_AKI, MP::CPM_CEH, MP::CPM_VBE, MP::CPM_VBM, MP::CPM_CORK, MP::CPM_PRSV, MP::CPM_EMP, MP::CPM_SRK, MP::CPM_PR78, MP::CPM_STP, MP::CPM_OFF, MP::CPM_CON};
static const MT::type wats[] = {MT::CTM_WAT, MT::CTM_WAR, MT::CTM_WWP, MT::CTM_WZD, MT::type(0)};
static const EOS::type dies[] = {EOS::CTPM_WJNR, EOS::CTPM_WJNG, EOS::CTPM_WSV14, EOS::CTPM_WF97, EOS::CTPM_CPT, EOS::CTPM_CON};
static ThermoPropertiesSubstance refprops(const std::string &p, int undef = 0) {
  ThermoPropertiesSubstance r;
  TS *f[] = {&r.gibbs_energy, &r.enthalpy, &r.entropy, &r.heat_capacity_cp, &r.volume, &r.internal_energy, &r.helmholtz_energy, &r.heat_capacity_cv};
  const char *n[] = {"G", "H", "S", "Cp", "V", "U", "A", "Cv"};
  for (int i = 0; i < 8; i++) if (!(undef >> i & 1)) *f[i] = ts(p + n[i]);
  return r;
}
static void outsta(const std::string &p, const ThermoPropertiesSubstance &r) {
  outst(p + "G", r.gibbs_energy); outst(p + "H", r.enthalpy); outst(p + "S", r.entropy); outst(p + "Cp", r.heat_capacity_cp);
  outst(p + "V", r.volume); outst(p + "U", r.internal_energy); outst(p + "A", r.helmholtz_energy); outst(p + "Cv", r.heat_capacity_cv);
}
static void outrea(const std::string &p, const ThermoPropertiesReaction &r) {
#define OR(n, f) outts(p + n, r.f); outst(p + n, r.f);
  OR("G", reaction_gibbs_energy) OR("H", reaction_enthalpy) OR("S", reaction_entropy) OR("Cp", reaction_heat_capacity_cp) OR("V", reaction_volume)
  OR("U", reaction_internal_energy) OR("A", reaction_helmholtz_energy) OR("Cv", reaction_heat_capacity_cv) OR("lnK", ln_equilibrium_constant) OR("logK", log_equilibrium_constant)
}
static Substance sub(const std::string &sym, EOS::type e, MT::type t, MP::type p, SubstanceClass::type c, AggregateState::type a) {
  Substance s; s.setSymbol(sym); s.setName(sym); s.setFormula("NaCl"); s.setMethodGenEoS(e); s.setMethod_T(t); s.setMethod_P(p);
  s.setSubstanceClass(c); s.setAggregateState(a); s.setThermoCalculationType(SubstanceThermoCalculationType::DCOMP); wide(s);
  return s;
}
static Element el(const std::string &s) { Element e; e.setSymbol(s); e.setName(s); e.setClass(0); e.setEntropy(var("entropy_" + s)); e.setMolarMass(1); e.setVolume(0); e.setHeatCapacity(0); return e; }
static Database base(const std::string &solv, MT::type wt, EOS::type we) {
  Database db;
  db.addElement(el("Na")); db.addElement(el("Cl"));
  Substance w = sub(solv, we, wt, MP::type(0), SubstanceClass::AQSOLVENT, choice("vapor", 2) ? AggregateState::GAS : AggregateState::AQUEOUS);
  w.setReferenceT(var("wTr")); w.setReferenceP(var("wPr"));
  w.setThermoReferenceProperties(refprops("w"));
  db.addSubstance(w);
  return db;
}
static void conventions(ThermoEngine &e) {
  int c = choice("conv", 4);
  if (c & 1) e.conventions().apparent_properties = "Berman_Brown";
  if (c & 2) e.conventions().water_properties = "STEAM_TABLES";
}
#if MODE == 0   // one substance: selection of models
int main() {
  quiet();
  int e = choice("eos", 7), t = choice("mt", 3), p = choice("mp", 13);
  std::string solv = choice("alt", 2) ? "Water" : "H2O@";
  Database db = base(solv, wats[choice("wat", 5)], dies[choice("diel", 6)]);
  static const char *tr[] = {"NEA_HGK", "HKF_HGK_1974", "NEA_IAPWS"};
  if (int k = choice("triple", 4)) db.conventions().water_triple_point_reference = tr[k - 1];
  bool aq = (e >= 3) || p == 1, gas = p >= 5 && p <= 11;
  Substance x = sub("X", eoss[e], mts[t], mps[p], aq ? SubstanceClass::AQSOLUTE : gas ? SubstanceClass::GASFLUID : SubstanceClass::COMPONENT, aq ? AggregateState::AQUEOUS : gas ? AggregateState::GAS : AggregateState::CRYSTAL);
  x.setThermoReferenceProperties(refprops("r")); x.setReferenceT(var("xTr")); x.setReferenceP(var("xPr"));
  static const char *names[] = {"X", "H+", "W"};
  int who = choice("who", 4);   // X, H+, the solvent, H2O vapour
  if (who == 1) x.setSymbol("H+");
  if (who == 3) { x = sub("V", EOS::CTPM_HKF, wats[choice("wat", 5)], MP::CPM_GAS, SubstanceClass::GASFLUID, AggregateState::GAS); x.setThermoReferenceProperties(refprops("r")); x.setReferenceT(var("xTr")); }
  db.addSubstance(x);
  ThermoEngine eng(db);
  conventions(eng);
  muf::undef["CPT:X"] = choice("fall", 2) ? 16 + 2 : 0;
  eng.preferences().fallback_to_reference_properties = choice("fall", 2);
  double T = var("T"), P = choice("p0", 2) ? 0.0 : var("P");
  std::string sym = who == 2 ? solv : x.symbol();
  ThermoPropertiesSubstance r;
  if (choice("byobj", 2)) r = eng.thermoPropertiesSubstance(T, P, db.getSubstance(sym));
  else r = eng.thermoPropertiesSubstance(T, P, sym);
  outsub_full("", r); outsta("", r); out("Pout", P);
  if (choice("solv", 2)) {
    double P2 = choice("p0", 2) ? 0.0 : var("P"), P3 = P2;
    int st = choice("state", 3) - 1;
    auto ps = eng.propertiesSolvent(T, P2, solv, st); outts("density", ps.density); outts("Alpha", ps.Alpha); out("Pout2", P2);
    auto es = eng.electroPropertiesSolvent(T, P3, solv, st); outts("epsilon", es.epsilon); out("Pout3", P3);
  }
}
#endif
#if MODE == 1   // reactions from reactants, dependent substances, pressure corrections
int main() {
  quiet();
  Database db = base("H2O@", wats[choice("wat", 5)], dies[choice("diel", 6)]);
  auto mk = [&](const std::string &n, EOS::type e, MP::type p, bool gas) { auto s = sub(n, e, MT::type(0), p, gas ? SubstanceClass::GASFLUID : SubstanceClass::COMPONENT, gas ? AggregateState::GAS : AggregateState::CRYSTAL);
    s.setThermoReferenceProperties(refprops("r" + n)); s.setReferenceT(var("xTr")); s.setReferenceP(var("xPr")); return s; };
  db.addSubstance(mk("A", EOS::CTPM_CPT, MP::CPM_CEH, false));
  db.addSubstance(mk("G", EOS::CTPM_CPT, MP::CPM_CORK, true));
  db.addSubstance(mk("B", EOS::CTPM_CPT, MP::type(0), false));
  int kind = choice("kind", 5);   // 0 reaction from reactants, 1 dependent substance, 2 reaction with its own model, 3 equation, 4 dependent substance in a reaction with gases
  int m = choice("rm", 12), rp = choice("rp", 6);
  static const MT::type rms[] = {MT::type(0), MT::CTM_LGX, MT::CTM_LGK, MT::CTM_EK0, MT::CTM_EK1, MT::CTM_EK2, MT::CTM_EK3, MT::CTM_DMD, MT::CTM_DKR, MT::CTM_MRB, MT::CTM_LGK, MT::type(0)};
  static const MP::type rps[] = {MP::type(0), MP::CPM_NUL, MP::CPM_CON, MP::CPM_OFF, MP::CPM_VKE, MP::CPM_VBE};
  Reaction rc; rc.setSymbol("R"); rc.setName("R");
  std::map<std::string, double> nu{{"A", var("nA")}, {"G", var("nG")}, {"B", var("nB")}};
  if (kind == 1 || kind == 4) nu["D"] = var("nD");
  rc.setReactants(nu);
  if (kind == 1 || kind == 2 || kind == 4) {
    rc.setMethodGenEoS(m == 10 ? EOS::CTPM_REA : m == 11 ? EOS::CTPM_CON : EOS::type(0)); rc.setMethod_T(rms[m]); rc.setMethod_P(rps[rp]);
    if (m == 10) rc.setMethod_T(MT::CTM_EK0);
  }
  rc.setReferenceT(var("qTr")); rc.setReferenceP(var("qPr"));
  ThermoPropertiesReaction q; q.reaction_volume = ts("qV"); q.reaction_gibbs_energy = ts("qG"); q.reaction_enthalpy = ts("qH"); q.reaction_entropy = ts("qS"); q.log_equilibrium_constant = ts("qlogK");
  q.ln_equilibrium_constant = ts("qlnK"); q.reaction_heat_capacity_cp = ts("qCp"); q.reaction_heat_capacity_cv = ts("qCv"); q.reaction_internal_energy = ts("qU"); q.reaction_helmholtz_energy = ts("qA");
  rc.setThermoReferenceProperties(q);
  db.addReaction(rc);
  if (kind == 1 || kind == 4) {
    auto d = mk("D", EOS::type(0), choice("dcon", 2) ? MP::CPM_CON : MP::type(0), false);
    d.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); d.setReactionSymbol(choice("noreac", 2) ? "" : "R"); db.addSubstance(d);
    Reaction q2; q2.setSymbol("Q"); q2.setName("Q"); q2.setReactants({{"D", var("mD")}, {"G", var("mG")}}); db.addReaction(q2);
  }
  outi("mt", m == 10 ? (int)MT::CTM_LGK : (int)rms[m]);
  int un = choice("undef", 4);   // a reactant model without enthalpy / Gibbs energy
  if (un) muf::undef["CEH:A"] = un == 1 ? 2 : un == 2 ? 1 : 4;
  if (choice("undefr", 2)) muf::undef["LGK:R:" + std::to_string(m == 10 ? (int)MT::CTM_LGK : (int)rms[m])] = 2;
  ThermoEngine eng(db);
  conventions(eng);
  double T = var("T"), P = choice("p0", 2) ? 0.0 : var("P");
  int again = choice("again", 2);
  try { for (int i = 0; i <= again; i++) {
    if (kind == 0 || kind == 2) {
      double P2 = P;
      outrea("", choice("api", 3) == 0 ? eng.thermoPropertiesReaction(T, P2, "R") : choice("api", 3) == 1 ? eng.thermoPropertiesReaction(T, P2, db.getReaction("R")) : eng.thermoPropertiesReactionFromReactants(T, P2, "R"));
    } else if (kind == 3) {
      double P2 = P; outrea("", eng.thermoPropertiesReaction(T, P2, "A + 2 B = 3 G"));
    } else if (kind == 4) { double P2 = P; outrea("", eng.thermoPropertiesReaction(T, P2, "Q"));
    } else { double P2 = P; auto r = eng.thermoPropertiesSubstance(T, P2, "D"); outsub_full("", r); outsta("", r); }
  } } catch (std::exception &) { outi("raised", 1); }
}
#endif
#if MODE == 2   // histories
namespace ThermoFun {  // the record that replaces substance G
auto parseSubstance(const std::string &) -> Substance {
  auto s = sub("G", EOS::CTPM_CON, MT::type(0), MP::type(0), SubstanceClass::GASFLUID, AggregateState::GAS); s.setThermoReferenceProperties(refprops("n")); s.setReferenceT(var("xTr")); s.setReferenceP(var("xPr")); return s; }
}
//: the result of a call does not depend on the calls before it
int main() {
  quiet();
  Database db = base("H2O@", wats[choice("wat", 5)], dies[choice("diel", 6)]);
  auto mk = [&](const std::string &n, EOS::type e, MP::type p, bool gas) { auto s = sub(n, e, MT::type(0), p, gas ? SubstanceClass::GASFLUID : e == EOS::CTPM_HKF ? SubstanceClass::AQSOLUTE : SubstanceClass::COMPONENT, gas ? AggregateState::GAS : e == EOS::CTPM_HKF ? AggregateState::AQUEOUS : AggregateState::CRYSTAL);
    s.setThermoReferenceProperties(refprops("r" + n)); s.setReferenceT(var("xTr")); s.setReferenceP(var("xPr")); return s; };
  db.addSubstance(mk("A", EOS::CTPM_HKF, MP::type(0), false));
  db.addSubstance(mk("G", EOS::CTPM_CPT, MP::CPM_CORK, true));
  auto d = mk("D", EOS::type(0), MP::type(0), false);
  d.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); d.setReactionSymbol("R"); db.addSubstance(d);
  { auto e = mk("E", EOS::type(0), MP::type(0), false); db.addSubstance(e); }                     // no methods: reference properties
  { auto e = mk("F", EOS::type(0), MP::type(0), false); e.setThermoCalculationType(SubstanceThermoCalculationType::REACDC); e.setReactionSymbol("missing"); db.addSubstance(e); }
  Reaction rc; rc.setSymbol("R"); rc.setName("R"); rc.setReactants({{"A", -1.0}, {"G", 2.0}, {"D", 1.0}}); rc.setMethod_T(MT::CTM_LGK); db.addReaction(rc);
  Reaction rq; rq.setSymbol("Q"); rq.setName("Q"); rq.setReactants({{"A", -1.0}, {"G", 2.0}}); db.addReaction(rq);
  double TT[2] = {var("T"), var("T2")}, PP[3] = {var("P"), var("P2"), 0.0};
  // one call: kind of property, state point
  auto call = [&](ThermoEngine &e, int what, int pt, const std::string &o) {
    double T = TT[pt & 1], P = PP[pt >> 1];
    try {
      switch (what) {
      case 0: { auto r = e.thermoPropertiesSubstance(T, P, "A"); if (!o.empty()) { outsub_full(o, r); outsta(o, r); } break; }
      case 1: { auto r = e.thermoPropertiesSubstance(T, P, "G"); if (!o.empty()) { outsub_full(o, r); outsta(o, r); } break; }
      case 2: { auto r = e.thermoPropertiesSubstance(T, P, "D"); if (!o.empty()) { outsub_full(o, r); outsta(o, r); } break; }
      case 3: { auto r = e.thermoPropertiesReaction(T, P, "Q"); if (!o.empty()) outrea(o, r); break; }
      case 4: { auto r = e.thermoPropertiesSubstance(T, P, "H2O@"); if (!o.empty()) { outsub_full(o, r); outsta(o, r); } break; }
      case 5: { auto r = e.propertiesSolvent(T, P, "H2O@", 1); if (!o.empty()) outts(o + "density", r.density); break; }
      case 6: { auto r = e.electroPropertiesSolvent(T, P, "H2O@", -1); if (!o.empty()) outts(o + "epsilon", r.epsilon); break; }
      case 7: { auto r = e.thermoPropertiesReaction(T, P, "R"); if (!o.empty()) outrea(o, r); break; }
      case 8: { auto r = e.thermoPropertiesSubstance(T, P, "E"); if (!o.empty()) { outsub_full(o, r); outsta(o, r); } break; }
      case 9: { auto r = e.thermoPropertiesSubstance(T, P, "F"); if (!o.empty()) { outsub_full(o, r); outsta(o, r); } break; }
      }
    } catch (std::exception &) { if (!o.empty()) outi(o + "raised", 1); }
    if (!o.empty()) out(o + "P", P);
  };
  int first = choice("first", 10), fpt = choice("fpt", 6), second = choice("second", 10), spt = choice("spt", 6), change = choice("change", 9);
  if (change == 3) db.conventions().water_triple_point_reference = "NEA_HGK";
  ThermoEngine eng(db);
  call(eng, first, fpt, "");
  if (choice("three", 2)) call(eng, (first + 3) % 10, (fpt + 2) % 6, "");
  // what the user may change between two calls
  auto apply = [&](ThermoEngine &e) {
    switch (change) {
    case 1: e.conventions().apparent_properties = "BERMAN_BROWN"; break;
    case 2: e.conventions().water_properties = "STEAM_TABLES"; break;
    case 4: e.preferences().fallback_to_reference_properties = true; break;
    case 5: e.preferences().apply_pressure_correction_to_gas_props = true; break;
    case 6: e.setSolventSymbol("W2"); break;
    }
  };
  if (change == 6) {
    // a second solvent, known from the start
    Substance w = sub("W2", EOS::CTPM_WSV14, MT::CTM_WWP, MP::type(0), SubstanceClass::AQSOLVENT, AggregateState::AQUEOUS);
    w.setReferenceT(var("wTr")); w.setReferenceP(var("wPr")); w.setThermoReferenceProperties(refprops("w")); db.addSubstance(w);
    ThermoEngine e2(db); call(e2, first, fpt, ""); apply(e2); call(e2, second, spt, "a.");
    ThermoEngine e3(db); apply(e3); call(e3, second, spt, "b.");
    return 0;
  }
  if (change == 7) {            // a copy outlives the original
    ThermoEngine *o = new ThermoEngine(db);
    call(*o, first, fpt, "");
    ThermoEngine cp(*o);
    cp.conventions().apparent_properties = "BERMAN_BROWN";
    o->preferences().apply_pressure_correction_to_gas_props = true;
    delete o;
    call(cp, second, spt, "a.");
    ThermoEngine fr(db); fr.conventions().apparent_properties = "BERMAN_BROWN"; call(fr, second, spt, "b.");
    return 0;
  }
  if (change == 8) {            // new data
    std::vector<std::string> rec{"{\"symbol\": \"G\"}"};
    eng.preferences().max_cache_size = 1;
    eng.appendData(rec, "substance");
    call(eng, second, spt, ""); call(eng, first, fpt, "");
    call(eng, second, spt, "a.");
    db.appendData(rec, "substance");
    ThermoEngine fr(db); call(fr, second, spt, "b.");
    return 0;
  }
  apply(eng);
  call(eng, second, spt, "a.");
  ThermoEngine fresh(db);
  apply(fresh);
  call(fresh, second, spt, "b.");
}
#endif
