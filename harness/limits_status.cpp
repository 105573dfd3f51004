// Substance::checkCalcMethodBounds on properties of different status: only what was calculated gets the message
#include "common.h"
#include "ThermoFun/Substance.h"
int main() {
  quiet();
  int odd = choice("odd", 8), inv = choice("inv", 2), st = choice("st", 3);
  const Reaktoro_::Status sts[] = {Reaktoro_::Status::notdefined, Reaktoro_::Status::read, Reaktoro_::Status::assigned};
  Substance s; s.setSymbol("X"); s.setName("X");
  s.setLowerT(var("lowerT")); s.setUpperT(var("upperT")); s.setLowerP(var("lowerP")); s.setUpperP(var("upperP"));
  ThermoPropertiesSubstance t;
  Reaktoro_::ThermoScalar *p[] = {&t.gibbs_energy, &t.enthalpy, &t.entropy, &t.heat_capacity_cp, &t.heat_capacity_cv, &t.volume, &t.internal_energy, &t.helmholtz_energy};
  for (int i = 0; i < 8; i++) { *p[i] = Reaktoro_::ThermoScalar(double(i + 1)); p[i]->sta = {(i == odd) != (inv == 1) ? sts[st] : Reaktoro_::Status::calculated, i == 2 ? "earlier; " : ""}; }
  double T = var("T"), P = var("P");
  out("Tq", T); out("Pq", P);
  s.checkCalcMethodBounds("model", T, P, t);
  for (int i = 0; i < 8; i++) {
    auto k = std::to_string(i);
    outi("sta" + k, (int)p[i]->sta.first); outi("msg" + k, p[i]->sta.second.find("out of ") != std::string::npos);
    outi("old" + k, p[i]->sta.second.rfind("earlier; ", 0) == 0); outi("val" + k, p[i]->val == i + 1);
  }
}
