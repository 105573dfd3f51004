// Water models WaterHGKreaktoro and WaterWP95reaktoro over a stand-in equation of state with free derivatives.
// DENSITY: the density iteration alone; the pressure is linear in density, so that it must end at the one solution.
#include "common.h"
#include "ThermoFun/ThermoModelsSolvent.h"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzState.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.hpp"
static double D, hD, hDD, first = 0; static int used[2];
static WaterHelmholtzState standin(TS d, int which) {
  used[which]++;
  if (!first) first = d.val;
  double x = d.val, cc = 2 * D * hD + D * D * hDD, a = D * D * hD + cc * (x - D);   // a: the pressure at density x
  WaterHelmholtzState h;
  h.helmholtzD = tsv(a / (x * x)); h.helmholtzDD = tsv((cc - 2 * a / x) / (x * x));
  h.helmholtz = ts("h"); h.helmholtzT = ts("hT"); h.helmholtzTT = ts("hTT"); h.helmholtzTD = ts("hTD");
  h.helmholtzTTT = ts("hTTT"); h.helmholtzTTD = ts("hTTD"); h.helmholtzTDD = ts("hTDD"); h.helmholtzDDD = ts("hDDD");
  return h;
}
namespace ThermoFun {
auto waterHelmholtzStateHGK(Reaktoro_::Temperature, TS d) -> WaterHelmholtzState { return standin(d, 0); }
auto waterHelmholtzStateWagnerPruss(Reaktoro_::Temperature, TS d) -> WaterHelmholtzState { return standin(d, 1); }
}
#ifdef DENSITY
int main() {
  quiet();
  int eos = choice("eos", 2), state = choice("state", 3) - 1;
  const double Ts[] = {300, 450, 600, 640, 647.096, 647.1, 700, 1200};
  double T = Ts[choice("temp", 8)];
  D = var("D"); hD = var("hD"); hDD = var("hDD");
  try {
    out("density", (eos ? waterDensityWagnerPruss : waterDensityHGK)(Reaktoro_::Temperature(T), Reaktoro_::Pressure(D * D * hD), state).val);
    // the iteration starts at the phase asked for, or without preference at the stable one
    Reaktoro_::Temperature t(T);
    double want = T > 647.096 ? 0.99 * 322 : (state == 1 || (state < 0 && D * D * hD < waterSaturatedPressureWagnerPruss(t).val)) ? waterSaturatedVapourDensityWagnerPruss(t).val : waterSaturatedLiquidDensityWagnerPruss(t).val;
    out("first", first); out("want", want);
    outi("other", used[!eos]); outi("raised", 0);
  } catch (...) { outi("raised", 1); }
}
#else
static int wrong = 0;
static TS den(Reaktoro_::Temperature T, Reaktoro_::Pressure P, int state, int which) {
  out("dT", T.val); out("dP", P.val); outi("dstate", state); wrong += which != choice("eos", 2);
  return tsv(D);
}
namespace ThermoFun {
auto waterDensityHGK(Reaktoro_::Temperature T, Reaktoro_::Pressure P, int state) -> TS { return den(T, P, state, 0); }
auto waterDensityWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::Pressure P, int state) -> TS { return den(T, P, state, 1); }
auto waterSaturatedPressureWagnerPruss(Reaktoro_::Temperature T) -> TS { out("pT", T.val); return tsv(var("psat")); }
}
int main() {
  quiet();
  int eos = choice("eos", 2), state = choice("state", 3) - 1;
  const char *tr[] = {"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS"};
  std::string triple = tr[choice("triple", 3)];
  double T = var("T"), P;
  D = var("D"); hD = var("hD"); hDD = var("hDD");
  P = choice("psat", 2) ? 0 : D * D * hD;
  Substance s; s.setSymbol("H2O@"); s.setName("W"); wide(s);
  try {
    double P1 = P, P2 = P;
    PropertiesSolvent w; ThermoPropertiesSubstance r;
    if (eos) { w = WaterWP95reaktoro(s).propertiesSolvent(T, P1, state); r = WaterWP95reaktoro(s).thermoPropertiesSubstance(T, P2, state, triple); }
    else { w = WaterHGKreaktoro(s).propertiesSolvent(T, P1, state); r = WaterHGKreaktoro(s).thermoPropertiesSubstance(T, P2, state, triple); }
    out("P1", P1); out("P2", P2);
    outsub("", r);
    out("density", w.density.val); out("densityT", w.densityT.val); out("densityP", w.densityP.val); out("densityTT", w.densityTT.val); out("densityTP", w.densityTP.val); out("densityPP", w.densityPP.val);
    out("pressure", w.pressure.val); out("pressureT", w.pressureT.val); out("pressureD", w.pressureD.val); out("pressureTT", w.pressureTT.val); out("pressureTD", w.pressureTD.val); out("pressureDD", w.pressureDD.val);
    out("Alpha", w.Alpha.val); out("Beta", w.Beta.val); out("dAldT", w.dAldT.val);
    outi("other", used[!eos] + wrong); outi("raised", 0);
  } catch (...) { outi("raised", 1); }
}
#endif
