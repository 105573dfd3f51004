// Records in JSON: every number of the text is a free value.
#include "common.h"
#include "ThermoFun/Common/ParseJsonToData.h"
#include "ThermoFun/Element.h"
#include "ThermoFun/Reaction.h"
#include "number.h"
static int style, gap, at, nfield;
static std::string q(const std::string &s) { return "\"" + s + "\""; }
struct U { std::string to, a, b; };   // units: of the models, two others
static std::string units(const std::vector<U> &u, bool list) {
  std::string r = ",\"units\":[";
  switch (style) {
  case 1: return "";
  case 3: return r + "]";
  case 2: if (!list) return r + "null]"; for (size_t i = 0; i < u.size(); i++) r += (i ? ",\"\"" : "\"\""); return r + "]";
  case 7: return ",\"units\":null";
  }
  size_t n = style == 6 ? 1 : u.size();
  for (size_t i = 0; i < n; i++) r += (i ? "," : "") + q(style == 0 ? u[i].to : style == 4 || style == 6 ? u[i].a : style == 5 ? u[i].b : u[i].to);
  return r + "]";
}
// one member of the record; gaps: 1 null value, 2 empty list, 3 no member, 4 empty member, 5 null list
static std::string field(const std::string &n, const std::vector<U> &u, bool err = false) {
  int g = nfield++ == at ? gap : 0;
  if (g == 3) return "";
  std::string r = "," + q(n) + ":{\"status\":[{\"0\":\"x\"}]";
  if (g == 4) return r + "}";
  r += ",\"values\":";
  if (g == 5) r += "null";
  else if (g == 2) r += "[]";
  else if (g == 1 && u.size() == 1) r += "[null]";
  else if (g == 1) r += "[]";
  else { r += "["; for (size_t i = 0; i < u.size(); i++) r += (i ? "," : "") + num(n + (u.size() > 1 ? "_" + std::to_string(i) : "")); r += "]"; }
  if (err && !g) r += ",\"errors\":[" + num(n + "_e") + "]";
  if (err && g == 1) r += ",\"errors\":[null]";
  return r + units(u, u.size() > 1 || n == "solute_holland_powell98_coeff") + "}";
}
static std::string plain(const std::string &n, const std::string &key = "") { int g = nfield++ == at ? gap : 0; if (g == 3) return ""; return "," + q(key.empty() ? n : key) + ":" + (g == 1 ? "null" : num(n)); }
static void lst(const std::string &n, const std::vector<double> &v) { outi(n + "_n", v.size()); for (size_t i = 0; i < v.size(); i++) out(v.size() > 1 ? n + "_" + std::to_string(i) : n, v[i]); }
static void thermo(const std::string &n, const TS &t) { out(n, t.val); out(n + "_e", t.err); outst(n, t); }
static std::vector<U> units_of(const std::string &n) {
  std::string cm = "cm^3";
#define X(k, ...) if (n == k) return {__VA_ARGS__}
#include "json_units.inc"
#undef X
  return {};
}
static std::string F(const std::string &n, bool err = false) { return field(n, units_of(n), err); }
static std::string list_of(const std::string &k, const std::string &v) { return "{" + q(k) + ":" + q(v) + "}"; }
static const int AGG[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 101}, CLS[] = {0, 1, 2, 3, 4, 5, 101};
static void element(bool wrap) {
  std::string t = "\"symbol\":\"Xx\",\"name\":\"Element X\",\"number\":27,\"class_\":{\"4\":\"OTHER_EC\"},\"isotope_mass\":61";
  for (auto f : {"entropy", "heat_capacity", "atomic_mass", "volume"}) t += F(f);
  auto e = parseElement(wrap ? "{\"_id\":\"1\",\"properties\":{" + t + "}}" : "{" + t + "}");
  out("entropy", e.entropy()); out("heat_capacity", e.heatCapacity()); out("atomic_mass", e.molarMass()); out("volume", e.volume());
  outi("number", e.number()); outi("class", e.class_()); outi("isotope", e.isotopeMass()); outs("names", e.symbol() + "|" + e.name() + "|");
}
static void substance(bool wrap, int code, bool reac) {
  std::string t = "\"symbol\":\"Xx@\",\"name\":\"Substance X\",\"formula\":\"Na|0|Cl\",\"formula_charge\":-3";
  t += ",\"aggregate_state\":" + list_of(std::to_string(AGG[code % 17]), "A") + ",\"class_\":" + list_of(std::to_string(CLS[code % 7]), "C");
  for (auto f : {"sm_heat_capacity_p", "sm_gibbs_energy", "sm_enthalpy", "sm_entropy_abs", "sm_volume"}) t += F(f, true);
  for (auto f : {"mass_per_mole", "m_expansivity", "m_compressibility"}) t += F(f);
  for (auto f : {"Tst", "Pst"}) t += plain(f);
  std::string l = plain("lowerT") + plain("upperT");
  if (!l.empty()) l = l.substr(1);
  t += ",\"limitsTP\":{" + l + "}";
  if (reac) t += ",\"reaction\":\"RX\"";
  if (reac != 1 || code % 2) {
    t += ",\"TPMethods\":[{\"method\":" + list_of(std::to_string(code), code ? "other" : "cp_ft_equation");
    for (auto f : {"eos_akinfiev_diamond_coeffs", "eos_gas_crit_props", "eos_hkf_coeffs", "m_heat_capacity_ft_coeffs", "m_phase_trans_props", "m_landau_phase_trans_props", "solute_holland_powell98_coeff"}) t += F(f);
    t += ",\"limitsTP\":{\"lowerT\":" + num("t0") + ",\"upperT\":" + num("t1") + "}}";
    bool gen = code == 2 || code == 3 || (code >= 25 && code <= 28) || code == 41 || code == 42;   // two general methods would not make sense together
    if (!gen) t += ",{\"method\":" + list_of("0", "cp_ft_equation") + ",\"limitsTP\":{\"lowerT\":" + num("t2") + ",\"upperT\":" + num("t3") + "},\"m_heat_capacity_ft_coeffs\":{\"values\":[" + num("c0") + "," + num("c1") + "]},\"m_phase_trans_props\":{\"values\":[" + num("p0") + "]}}";
    t += "]";
  }
  auto s = parseSubstance(wrap ? "{\"_id\":\"1\",\"properties\":{" + t + "}}" : "{" + t + "}");
  auto r = s.thermoReferenceProperties();
  thermo("sm_heat_capacity_p", r.heat_capacity_cp); thermo("sm_gibbs_energy", r.gibbs_energy); thermo("sm_enthalpy", r.enthalpy); thermo("sm_entropy_abs", r.entropy); thermo("sm_volume", r.volume);
  outst("helmholtz", r.helmholtz_energy); outst("internal", r.internal_energy); outst("cv", r.heat_capacity_cv);
  auto p = s.thermoParameters();
  out("mass_per_mole", s.molarMass()); out("m_expansivity", p.isobaric_expansivity); out("m_compressibility", p.isothermal_compresibility);
  out("Tst", s.referenceT()); out("Pst", s.referenceP()); out("lowerT", s.lowerT()); out("upperT", s.upperT());
  lst("eos_akinfiev_diamond_coeffs", p.Cp_nonElectrolyte_coeff); lst("eos_gas_crit_props", p.critical_parameters); lst("eos_hkf_coeffs", p.HKF_parameters);
  lst("m_landau_phase_trans_props", p.m_landau_phase_trans_props); lst("solute_holland_powell98_coeff", p.solute_holland_powell98_coeff);
  outi("ncp", p.Cp_coeff.size()); outi("ntr", p.phase_transition_prop.size()); outi("nti", p.temperature_intervals.size());
  size_t k = 0;
  if (p.Cp_coeff.size() == 2) lst("m_heat_capacity_ft_coeffs", p.Cp_coeff[k++]); 
  if (p.Cp_coeff.size() > k) { outi("c_n", p.Cp_coeff[k].size()); for (int i = 0; i < (int)p.Cp_coeff[k].size() && i < 2; i++) out(S_("c", i), p.Cp_coeff[k][i]); }
  k = 0;
  if (p.phase_transition_prop.size() == 2) lst("m_phase_trans_props", p.phase_transition_prop[k++]);
  if (p.phase_transition_prop.size() > k) { outi("p_n", p.phase_transition_prop[k].size()); out("p0", p.phase_transition_prop[k][0]); }
  for (size_t i = 0; i < p.temperature_intervals.size(); i++) { outi(S_("tn", i), p.temperature_intervals[i].size()); for (int j = 0; j < (int)p.temperature_intervals[i].size() && j < 2; j++) out(S_("i", 2 * i + j), p.temperature_intervals[i][j]); }
  outi("charge", s.charge()); outi("agg", (int)s.aggregateState()); outi("cls", (int)s.substanceClass()); outi("gen", (int)s.methodGenEOS()); outi("mt", (int)s.method_T()); outi("mp", (int)s.method_P());
  outi("reacdc", s.thermoCalculationType() == SubstanceThermoCalculationType::type::REACDC);
  outs("names", s.symbol() + "|" + s.name() + "|" + s.formula() + "|" + s.reactionSymbol() + "|");
}
static void reaction(bool wrap, int code) {
  std::string t = "\"symbol\":\"RX\",\"name\":\"Reaction X\"";
  for (auto f : {"logKr", "drsm_heat_capacity_p", "drsm_gibbs_energy", "drsm_enthalpy", "drsm_entropy", "drsm_volume"}) t += F(f, true);
  for (auto f : {"Tst", "Pst"}) t += plain(f);
  std::string l = plain("lowerT") + plain("upperT");
  if (!l.empty()) l = l.substr(1);
  t += ",\"limitsTP\":{" + l + "}";
  t += ",\"reactants\":[{\"symbol\":\"A\",\"coefficient\":" + num("nA") + "},{\"symbol\":\"B\",\"coefficient\":" + num("nB") + "},{\"symbol\":null,\"coefficient\":3},{\"symbol\":\"D\"},{\"symbol\":\"A\",\"coefficient\":" + num("nA2") + "}]";
  t += ",\"TPMethods\":[{\"method\":" + list_of(std::to_string(code), "m");
  for (auto f : {"logk_ft_coeffs", "dr_heat_capacity_ft_coeffs", "dr_volume_fpt_coeffs", "dr_ryzhenko_coeffs", "dr_marshall_franck_coeffs", "dr_dolejs_manning10_coeffs"}) t += F(f);
  t += "},{\"method\":" + list_of("13", "dr_volume_constant") + "}]";
  auto s = parseReaction(wrap ? "{\"_id\":\"1\",\"properties\":{" + t + "}}" : "{" + t + "}");
  auto r = s.thermoReferenceProperties();
  thermo("logKr", r.log_equilibrium_constant); thermo("drsm_heat_capacity_p", r.reaction_heat_capacity_cp); thermo("drsm_gibbs_energy", r.reaction_gibbs_energy);
  thermo("drsm_enthalpy", r.reaction_enthalpy); thermo("drsm_entropy", r.reaction_entropy); thermo("drsm_volume", r.reaction_volume);
  outst("helmholtz", r.reaction_helmholtz_energy); outst("internal", r.reaction_internal_energy); outst("cv", r.reaction_heat_capacity_cv);
  auto p = s.thermoParameters();
  out("Tst", s.referenceT()); out("Pst", s.referenceP()); out("lowerT", s.lowerT()); out("upperT", s.upperT());
  lst("logk_ft_coeffs", p.reaction_logK_fT_coeff); lst("dr_heat_capacity_ft_coeffs", p.reaction_Cp_fT_coeff); lst("dr_volume_fpt_coeffs", p.reaction_V_fT_coeff);
  lst("dr_ryzhenko_coeffs", p.reaction_RB_coeff); lst("dr_marshall_franck_coeffs", p.reaction_FM_coeff); lst("dr_dolejs_manning10_coeffs", p.reaction_DM10_coeff);
  auto m = s.reactants();
  outi("nreac", m.size()); for (auto &k : m) out("reac_" + k.first, k.second);
  outi("gen", (int)s.methodGenEOS()); outi("mt", (int)s.method_T()); outi("mp", (int)s.method_P());
  outs("names", s.symbol() + "|" + s.name() + "|");
}
int main() {
  quiet();
  int kind = choice("kind", 4), code = choice("code", 44); bool wrap = choice("wrap", 2);
  style = choice("style", 8); gap = choice("gap", 6); at = choice("at", 20);
  try {
    if (kind == 0) element(wrap);
    if (kind == 1) substance(wrap, code, false);
    if (kind == 2) reaction(wrap, code);
    if (kind == 3) substance(wrap, code, true);
  } catch (const std::exception &e) { outi("raised", 1); outs("what", e.what()); }
}
