// Aqueous solutes: HKF (two implementations), Akinfiev-Diamond, Holland-Powell 98, Anderson 91, ideal gas water (Woolley)
#include "common.h"
#include "ThermoFun/ThermoModelsSubstance.h"
// water: density D (kg/m3) and its derivatives, per K and per bar
static PropertiesSolvent water(const std::string &x) {
  PropertiesSolvent w;
  double D = var("D" + x), DT = var("DT" + x), DP = var("DP" + x) / bar_to_Pa, DTT = var("DTT" + x);
  w.density = tsv(D); w.densityT = tsv(DT); w.densityP = tsv(DP); w.densityTT = tsv(DTT);
  w.densityTP = tsv(var("DTP" + x) / bar_to_Pa); w.densityPP = tsv(var("DPP" + x) / bar_to_Pa / bar_to_Pa);
  w.Alpha = tsv(-DT / D); w.Beta = tsv(DP / D); w.dAldT = tsv(-DTT / D + DT * DT / (D * D)); w.Albe = tsv(-DT / DP);
  return w;
}
static ThermoPropertiesSubstance thp(const std::string &x) {
  ThermoPropertiesSubstance r;
  r.gibbs_energy = ts(x + "G"); r.entropy = ts(x + "S"); r.heat_capacity_cp = ts(x + "Cp"); r.volume = ts(x + "V"); r.enthalpy = ts(x + "H");
  return r;
}
int main() {
  quiet();
  int model = choice("model", 6);
  double T = var("T"), P = var("P"), Ppa = P * bar_to_Pa;
  Substance s; s.setSymbol(choice("hplus", 2) ? "H+" : "X"); s.setName("X"); wide(s);
  ThermoPropertiesSubstance ref = thp("r"); ref.internal_energy = ts("rU"); ref.helmholtz_energy = ts("rA");
  s.setThermoReferenceProperties(ref);
  ThermoParametersSubstance p;
  ThermoPropertiesSubstance r;
  auto w = water("");
  ElectroPropertiesSolvent e;
  if (model < 2) {
    e.bornZ = tsv(var("Z")); e.bornY = tsv(var("Y")); e.bornQ = tsv(var("Q") / bar_to_Pa); e.bornX = tsv(var("X")); e.bornN = tsv(var("N") / bar_to_Pa / bar_to_Pa); e.bornU = tsv(var("U") / bar_to_Pa);
    p.HKF_parameters = vars("k", 7);
    s.setThermoParameters(p);
    s.setCharge((double)(choice("charge", 16) - 8));
    r = model == 0 ? SoluteHKFgems(s).thermoProperties(T, Ppa, w, e) : SoluteHKFreaktoro(s).thermoProperties(T, Ppa, w, e);
  } else if (model == 2) {
    p.Cp_nonElectrolyte_coeff = vars("k", 3);
    s.setThermoParameters(p);
    auto wr = water("r");
    r = SoluteAkinfievDiamondEOS(s).thermoProperties(T, Ppa, thp("i"), thp("w"), thp("g"), w, thp("wr"), thp("gr"), wr);
  } else if (model == 3 || model == 4) {
    s.setReferenceT(var("Tr")); s.setReferenceP(bar_to_Pa);
    p.solute_holland_powell98_coeff = vars("k", 1);
    s.setThermoParameters(p);
    auto wr = water("r");
    r = model == 3 ? SoluteHollandPowell98(s).thermoProperties(T, Ppa, wr, w) : SoluteAnderson91(s).thermoProperties(T, Ppa, wr, w);
  } else
    r = WaterIdealGasWoolley(s).thermoProperties(T, Ppa);
  outsub("", r);
  if (model == 0 && choice("both", 2)) outsub("r_", SoluteHKFreaktoro(s).thermoProperties(T, Ppa, w, e));
}
