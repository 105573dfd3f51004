// Zhang and Duan 2005 water.  EOS: one Newton step started at a volume which solves the published equation of state, with
// arbitrary derivative members; otherwise the conversion to solvent and substance properties over a stand-in volume v(T,P).
#include "common.h"
#include "ThermoFun/ThermoModelsSolvent.h"
namespace ThermoFun { auto waterMolarVolume(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar, TS V0) -> TS; }
#ifdef EOS
int main() {
  quiet();
  const double a[] = {0, 3.49824207e-01, -2.91046273e+00, 2.00914688e+00, 1.12819964e-01, 7.48997714e-01, -8.73207040e-01, 1.70609505e-02, -1.46355822e-02, 5.79768283e-02, -8.41246372e-04, 4.95186474e-03, -9.16248538e-03, -1.00358152e-01, -1.82674744e-03};
  const double g = 1.05999998e-02;
  double T = var("T"), V = var("V"), r = T / 647.25, v2 = V * V;
  auto q = [&](int i) { return a[i] + a[i + 1] / (r * r) + a[i + 2] / (r * r * r); };
  double Z = 1 + q(1) / V + q(4) / v2 + q(7) / (v2 * v2) + q(10) / (v2 * v2 * V) + (a[13] / r / v2 + a[14] * r / (v2 * v2)) * exp(-g / v2);
  double P = 83.14467 * T * Z / (V * 55.9480373);
  out("P", P);
  try {
    TS v0 = tsv(V); v0.ddt = var("V0T"); v0.ddp = var("V0P");
    TS v = waterMolarVolume(Reaktoro_::Temperature(T), Reaktoro_::Pressure(P), v0);
    out("V", v.val); out("VT", v.ddt); out("VP", v.ddp); outi("raised", 0);
  } catch (...) { outi("raised", 1); }
}
#else
static double hiT, loT, hiP, loP; static int calls = 0;
namespace verif_stub {
TS vol(Reaktoro_::Temperature T, Reaktoro_::Pressure P, TS) {
  if (!calls++) { hiT = loT = T.val; hiP = loP = P.val; }
  if (T.val > hiT) hiT = T.val; if (T.val < loT) loT = T.val; if (P.val > hiP) hiP = P.val; if (P.val < loP) loP = P.val;
  TS v = tsv(sym_uf("v", {T.val, P.val})); double vT = sym_uf("vT", {T.val, P.val}), vP = sym_uf("vP", {T.val, P.val});
  v.ddt = vT * T.ddt + vP * P.ddt; v.ddp = vT * T.ddp + vP * P.ddp;
  return v;
}
}
int main() {
  quiet();
  Substance s; s.setSymbol("H2O@"); s.setName("W"); wide(s);
  double T = var("T"), P = var("P"), P0 = P;
  try {
    auto w = WaterZhangDuan2005(s).propertiesSolvent(T, P, choice("state", 2));
    out("density", w.density.val); outts("density", w.density); outts("densityT", w.densityT); outts("densityP", w.densityP); outts("densityTT", w.densityTT); outts("densityPP", w.densityPP);
    out("Alpha", w.Alpha.val); out("Beta", w.Beta.val); out("dAldT", w.dAldT.val);
    out("hiT", hiT); out("loT", loT); out("hiP", hiP); out("loP", loP);
    auto r = WaterZhangDuan2005(s).thermoPropertiesSubstance(T, P, choice("state", 2));
    out("Vm", r.volume.val);
    auto un = [](const TS &t) { return (long)(t.sta.first == Reaktoro_::Status::notdefined); };
    outi("undef", un(r.gibbs_energy) + un(r.helmholtz_energy) + un(r.internal_energy) + un(r.enthalpy) + un(r.entropy) + un(r.heat_capacity_cp) + un(r.heat_capacity_cv));
    out("Pafter", P); out("Pbefore", P0); outi("raised", 0);
  } catch (...) { outi("raised", 1); }
}
#endif
