// Validity limits: the warning attached to the calculated properties (all models real, called through the engine)
#include "common.h"
#include "ThermoFun/ThermoEngine.h"
#include "ThermoFun/Database.h"
#include "ThermoFun/Element.h"
using EOS = MethodGenEoS_Thrift; using MT = MethodCorrT_Thrift; using MP = MethodCorrP_Thrift;
int main() {
  quiet();
  int model = choice("model", 13), state = choice("state", 3);
  static const double Ts[] = {310, 450, 700}, Ps[] = {2e5, 3e7, 2e8};
  Substance s; s.setSymbol("X"); s.setName("X"); s.setFormula("CO2"); s.setCharge(0); s.setReferenceT(298.15); s.setReferenceP(1e5);
  s.setThermoCalculationType(SubstanceThermoCalculationType::DCOMP); s.setSubstanceClass(SubstanceClass::COMPONENT); s.setAggregateState(AggregateState::CRYSTAL);
  ThermoPropertiesSubstance ref;
  ref.gibbs_energy = tsv(-4e5); ref.enthalpy = tsv(-4.1e5); ref.entropy = tsv(120); ref.heat_capacity_cp = tsv(90); ref.volume = tsv(3); ref.internal_energy = tsv(-4e5); ref.helmholtz_energy = tsv(-4e5); ref.heat_capacity_cv = tsv(80);
  s.setThermoReferenceProperties(ref);
  ThermoParametersSubstance p;
  p.temperature_intervals = {{200, 2000}};
  p.Cp_coeff = {{80, 0.02, -1e5, 0, 0, 0, 0, 0, 0, 0}};
  s.setMethodGenEoS(EOS::CTPM_CPT); s.setMethod_T(MT::CTM_CST);
  p.volume_coeff = {1e-5, 1e-9, 0, -1e-6, 1e-12};
  p.m_landau_phase_trans_props = {500, 5, 0.1};
  p.isothermal_compresibility = 1000; p.isobaric_expansivity = 3;
  p.volume_BirchM_coeff = {3e-5, 1e-8, 0.1, 0, 0, 1.2e5, -15, 4.5, -4e-5};
  p.critical_parameters = {304.2, 73.8, 0.225, 0.04, 0, 0, 0};
  p.HKF_parameters = {0.2, 100, 3, -3e4, 20, -3e4, 5e4};
  p.Cp_nonElectrolyte_coeff = {-0.1, -8, 12};
  switch (model) {
  case 0: s.setMethodGenEoS(EOS::CTPM_HKF); break;
  case 1: s.setMethodGenEoS(EOS::CTPM_HKFR); break;
  case 2: s.setMethod_P(MP::CPM_AKI); break;
  case 3: s.setMethod_P(MP::CPM_CEH); break;
  case 4: s.setMethod_P(MP::CPM_VBE); break;
  case 5: s.setMethod_P(MP::CPM_VBM); break;
  case 6: s.setMethod_T(MT::CTM_CHP); break;
  case 7: s.setMethod_P(MP::CPM_CORK); break;
  case 8: s.setMethod_P(MP::CPM_PRSV); break;
  case 9: s.setMethod_P(MP::CPM_SRK); break;
  case 10: s.setMethod_P(MP::CPM_PR78); break;
  case 11: s.setMethod_P(MP::CPM_STP); break;
  case 12: s.setMethod_P(MP::CPM_EMP); p.critical_parameters = {3.69, 225., 0, 0, 0, 0, 0}; break;
  }
  if (model < 3) { s.setSubstanceClass(SubstanceClass::AQSOLUTE); s.setAggregateState(AggregateState::AQUEOUS); s.setMethod_T(model < 2 ? MT::type(0) : MT::CTM_CST); }
  if (model > 6) { s.setSubstanceClass(SubstanceClass::GASFLUID); s.setAggregateState(AggregateState::GAS); }
  s.setThermoParameters(p);
  s.setLowerT(var("lowerT")); s.setUpperT(var("upperT")); s.setLowerP(var("lowerP")); s.setUpperP(var("upperP"));
  double T = Ts[state], P = Ps[state];
  if (choice("sym", 2)) { T = var("T"); P = var("P"); }
  out("Tq", T); out("Pq", P);
  Database db;
  for (auto f : {"C", "O", "H"}) { Element e; e.setSymbol(f); e.setName(f); e.setClass(0); e.setEntropy(10); db.addElement(e); }
  Substance w; w.setSymbol("H2O@"); w.setName("w"); w.setFormula("H2O"); w.setSubstanceClass(SubstanceClass::AQSOLVENT); w.setAggregateState(AggregateState::AQUEOUS); w.setReferenceT(298.15); w.setReferenceP(1e5);
  w.setMethodGenEoS(EOS::CTPM_WJNR); w.setMethod_T(MT::CTM_WAT); w.setThermoReferenceProperties(ref); wide(w);
  db.addSubstance(w); db.addSubstance(s);
  ThermoEngine eng(db);
  if (choice("bb", 2)) eng.conventions().apparent_properties = "BERMAN_BROWN";
  auto r = eng.thermoPropertiesSubstance(T, P, "X");
#define M(n, f) outi("sta_" n, (int)r.f.sta.first); outi("msg_" n, r.f.sta.second.find("out of ") != std::string::npos); outi("fin_" n, std::isfinite(r.f.val));
  M("G", gibbs_energy) M("H", enthalpy) M("S", entropy) M("Cp", heat_capacity_cp) M("V", volume) M("U", internal_energy) M("A", helmholtz_energy)
}
