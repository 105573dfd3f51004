// Cp(T) integration: EmpiricalCpIntegration.cpp, StandardEntropyCpIntegration.cpp
#include "common.h"
#include "ThermoFun/Substances/EmpiricalCpIntegration.h"
#include "ThermoFun/Substances/StandardEntropyCpIntegration.h"
int main() {
  quiet();
  int n = choice("n", 4);      // number of Cp intervals; 0: constant-Cp method
  int at = choice("at", 5);    // 0: symbolic T; 1: T is the reference temperature; 2..: T is an interval boundary
  Substance s; s.setSymbol("X"); s.setName("X");
  ThermoPropertiesSubstance ref;
  ref.gibbs_energy = ts("G0"); ref.enthalpy = ts("H0"); ref.entropy = ts("S0"); ref.heat_capacity_cp = ts("Cp0"); ref.volume = ts("V0");
  s.setThermoReferenceProperties(ref);
  double Tr = var("Tr"), T = var("T");
  s.setReferenceT(Tr); s.setReferenceP(1e5);
  if (n == 0) {
    if (at == 1) T = Tr;
    auto r = thermoPropertiesEntropyCpIntegration(Reaktoro_::Temperature(T), Reaktoro_::Pressure(1e5), s);
    outsub("", r);
    return 0;
  }
  ThermoParametersSubstance p;
  std::vector<double> b; for (int i = 0; i <= n; i++) b.push_back(var(S_("B", i)));
  // lists of different lengths, and transitions at some of the interval bounds only, with fewer properties
  int lens = choice("lens", 3), tr = choice("tr", 5);
  static const int LEN[3][3] = {{10, 10, 10}, {10, 3, 6}, {3, 12, 1}};
  for (int i = 0; i < n; i++) { sym_assume(b[i] < b[i + 1]); p.temperature_intervals.push_back({b[i], b[i + 1]}); p.Cp_coeff.push_back(vars(S_("c", i) + "_", LEN[lens][i])); }
  sym_assume(b[0] <= Tr && Tr < b[1]);
  for (int i = 1; i < n; i++) {
    if (tr == i) continue;
    std::vector<double> t{b[i], var(S_("dS", i)), var(S_("dH", i)), var(S_("dV", i))};
    t.resize(tr == 3 ? 3 : tr == 4 ? 2 : 4);
    p.phase_transition_prop.push_back(t);
  }
  s.setThermoParameters(p);
  if (at == 1) T = Tr;
  if (at >= 2) T = b[at - 1];
  sym_assume(T >= b[0] && T <= b[n]);
  auto r = thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature(T), Reaktoro_::Pressure(1e5), s);
  outsub("", r);
}
