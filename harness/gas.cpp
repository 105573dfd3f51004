// Gases: cubic equations of state (PR78, SRK, PRSV), CORK, and the constant volume and ideal gas volume models
#include "common.h"
#include "ThermoFun/ThermoModelsSubstance.h"
static const double R = 8.31451;
namespace verif_stub {
double root = 0;   // the compressibility (cubic) or the volume in J/bar (CORK) the equation of state has at the state of interest
// the solver of the cubic equation gives the root the harness chose, when the coefficients have it as a root (reported, checked)
long cubic(void *, double a2, double a1, double a0, double &z1, double &z2, double &z3) {
  double z = root;
  out("residual", ((z + a2) * z + a1) * z + a0); out("rescale", z * z * z + a0); outi("solved", 1);
  z1 = z2 = z3 = z;
  return 0;
}
}
int main() {
  quiet();
  int model = choice("model", 8);
  Substance s; s.setSymbol("X"); s.setName("X"); wide(s);
  double T = model < 3 ? 0 : var("T"), P;
  ThermoPropertiesSubstance in;
  for (auto pr : {std::make_pair(&in.gibbs_energy, "iG"), {&in.enthalpy, "iH"}, {&in.entropy, "iS"}, {&in.heat_capacity_cp, "iCp"}, {&in.volume, "iV"}, {&in.internal_energy, "iU"}, {&in.helmholtz_energy, "iA"}}) { *pr.first = ts(pr.second); pr.first->sta.first = Reaktoro_::Status::calculated; }
  ThermoParametersSubstance p;
  p.temperature_intervals = {{200., 2000.}};
  double Tc = 0, Pc = 0, om = 0, k1 = 0, k2 = 0, k3 = 0, v = 0;
  if (model < 4) {
    Tc = var("Tc"); Pc = var("Pc"); om = 0.1;
    if (model < 3) { int k = choice("om", 4); om = k == 0 ? var("om") : k == 1 ? 0.1 : k == 2 ? 0.45 : 0.7; T = choice("crit", 2) ? Tc : Tc * var("q") * var("q"); }
    if (model == 2) if (choice("kk", 2)) { k1 = 0.04; k2 = 0.3; k3 = 0.6; }
    p.critical_parameters = {Tc, Pc, om, k1, k2, k3, 0.};
  } else p.critical_parameters = {300., 50., 0.1, 0., 0., 0., 0.};
  if (model < 3) {   // P from T and v by the equation of state as published
    double Tr = T / Tc, q = std::sqrt(Tr), m, ac, b;
    if (model == 0) {   // Peng-Robinson 1978
      m = om <= 0.491 ? 0.37464 + 1.54226 * om - 0.26992 * om * om : 0.379642 + 1.48503 * om - 0.164423 * om * om + 0.0166666 * om * om * om;
      ac = 0.457235529 * R * R * Tc * Tc / Pc; b = 0.0777960739 * R * Tc / Pc;
    } else if (model == 1) {   // Soave-Redlich-Kwong
      m = 0.48 + 1.574 * om - 0.176 * om * om; ac = 0.42747 * R * R * Tc * Tc / Pc; b = 0.08664 * R * Tc / Pc;
    } else {   // Peng-Robinson-Stryjek-Vera
      double k0 = 0.378893 + 1.4897153 * om - 0.17131848 * om * om + 0.0196554 * om * om * om;
      m = T >= Tc ? k0 : k0 + (k1 + k2 * (k3 - Tr) * (1 - q)) * (1 + q) * (0.7 - Tr);
      ac = 0.457235 * R * R * Tc * Tc / Pc; b = 0.077796 * R * Tc / Pc;
    }
    double al = 1 + m * (1 - q), a = ac * al * al;
    v = b * (1 + var("w")); out("a", a); out("b", b);
    P = model == 1 ? R * T / (v - b) - a / (v * (v + b)) : R * T / (v - b) - a / (v * v + 2 * b * v - b * b);
    verif_stub::root = P * v / (R * T);
  } else if (model == 4 || model == 5) {   // modified Redlich-Kwong part of CORK (Holland and Powell 1991), kJ, kbar
    double a, b, t = T - 673;
    if (model == 4) { b = 1.465; a = T > 673 ? 1113.4 - 0.22291 * t - 3.8022e-4 * t * t + 1.7791e-7 * t * t * t : 1113.4 - 5.8487 * t - 2.1370e-2 * t * t - 6.8133e-5 * t * t * t; }
    else { b = 3.057; a = 659.8 + 0.21078 * T - 6.3976e-4 * T * T; }
    v = b * (1 + var("w")); out("a", a * 1000); out("b", b);
    P = (R / 1000 * T / (v - b) - a / (std::sqrt(T) * v * (v + b))) * 1000;
    verif_stub::root = v;
  } else P = var("P");
  if (model < 6 && !(T > 200.5 && P > 1e-3 && P < 9e4 && (model != 4 || P < 1990) && (model != 5 || P < 4990))) { outi("skip", 1); return 0; }
  if (model == 4 && T <= 695) {   // water vapour only
    double t2 = T * T, ps = (-13.627e-3 + 7.29395e-7 * t2 - 2.34622e-9 * t2 * T + 4.83607e-15 * t2 * t2 * T) * 1000;
    if (!(P < 0.99 * ps)) { outi("skip", 1); return 0; }
  }
  out("P", P); out("v", v);
  s.setThermoParameters(p);
  s.setReferenceT(298.15); s.setReferenceP(model == 6 ? var("Pr") * bar_to_Pa : bar_to_Pa);
  double Ppa = P * bar_to_Pa;
  ThermoPropertiesSubstance r;
  switch (model) {
  case 0: r = GasPR78(s).thermoProperties(T, Ppa, in, false); break;
  case 1: r = GasSRK(s).thermoProperties(T, Ppa, in, false); break;
  case 2: r = GasPRSV(s).thermoProperties(T, Ppa, in, false); break;
  case 3: s.setFormula("CH4"); r = GasCORK(s).thermoProperties(T, Ppa, in, false); break;
  case 4: s.setFormula("H2O"); r = GasCORK(s).thermoProperties(T, Ppa, in, false); break;
  case 5: s.setFormula("CO2"); r = GasCORK(s).thermoProperties(T, Ppa, in, false); break;
  case 6: {
    ThermoPropertiesSubstance ref; if (choice("vol", 2)) ref.volume = ts("V0");
    s.setThermoReferenceProperties(ref);
    r = ConMolVol(s).thermoProperties(T, Ppa, in); break; }
  case 7: s.setSubstanceClass(choice("gas", 2) ? SubstanceClass::type::GASFLUID : SubstanceClass::type::AQSOLUTE); r = IdealGasLawVol(s).thermoProperties(T, Ppa, in, false); break;
  }
  outsub("", r);
}
