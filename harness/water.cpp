// Water: Helmholtz functions of Haar-Gallagher-Kell and Wagner-Pruss (IAPWS-95), pressure and saturation functions
#include "common.h"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzState.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.hpp"
#include "ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.hpp"
static void outh(const WaterHelmholtzState &h) {
  outts("h", h.helmholtz); outts("hT", h.helmholtzT); outts("hD", h.helmholtzD); outts("hTT", h.helmholtzTT); outts("hTD", h.helmholtzTD);
  outts("hDD", h.helmholtzDD); outts("hTTT", h.helmholtzTTT); outts("hTTD", h.helmholtzTTD); outts("hTDD", h.helmholtzTDD); outts("hDDD", h.helmholtzDDD);
}
int main() {
  quiet();
  int eos = choice("eos", 3);
  Reaktoro_::Temperature T(eos < 2 ? var("T") : 647.096 * (1 - var("q")));
  try {
    if (eos < 2) {
      TS D(var("D"));
      outh(eos ? waterHelmholtzStateWagnerPruss(T, D) : waterHelmholtzStateHGK(T, D));
      out("p", (eos ? waterPressureWagnerPruss(T, D) : waterPressureHGK(T, D)).val);
    } else {
      outts("ps", waterSaturatedPressureWagnerPruss(T)); outts("dl", waterSaturatedLiquidDensityWagnerPruss(T)); outts("dv", waterSaturatedVapourDensityWagnerPruss(T));
    }
    outi("raised", 0);
  } catch (...) { outi("raised", 1); }
}
