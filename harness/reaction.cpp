// Reaction models: logK(T) approximations, density models
#include "common.h"
#include "ThermoFun/Reaction.h"
#include "ThermoFun/ThermoModelsReaction.h"
using MT = MethodCorrT_Thrift;
static PropertiesSolvent water() {
  PropertiesSolvent w;
  double D = var("D"), DT = var("DT"), DP = var("DP") / bar_to_Pa, DTT = var("DTT");
  w.density = tsv(D); w.densityT = tsv(DT); w.densityP = tsv(DP); w.densityTT = tsv(DTT);
  w.Alpha = tsv(-DT / D); w.Beta = tsv(DP / D); w.dAldT = tsv(-DTT / D + DT * DT / (D * D)); w.Albe = tsv(-DT / DP);
  return w;
}
static void outr(const std::string &p, const ThermoPropertiesReaction &r) {
#define O(n, f) out(p + n, r.f.val); outi(p + n + "_sta", (int)r.f.sta.first);
  O("G", reaction_gibbs_energy) O("H", reaction_enthalpy) O("S", reaction_entropy) O("Cp", reaction_heat_capacity_cp) O("V", reaction_volume)
  O("U", reaction_internal_energy) O("A", reaction_helmholtz_energy) O("lnK", ln_equilibrium_constant) O("logK", log_equilibrium_constant)
}
int main() {
  quiet();
  int model = choice("model", 9);
  Reaction x; x.setName("R"); x.setSymbol("R");
  double T = var("T"), P = var("P"), Ppa = P * bar_to_Pa;
  ThermoPropertiesReaction ref;
  int has = choice("has", 8);   // which of H, S, G the record gives
  if (has & 1) ref.reaction_enthalpy = ts("rH");
  if (has & 2) ref.reaction_entropy = ts("rS");
  if (has & 4) ref.reaction_gibbs_energy = ts("rG");
  if (choice("cp", 2)) ref.reaction_heat_capacity_cp = ts("rCp");
  ref.log_equilibrium_constant = ts("rlogK"); ref.ln_equilibrium_constant = tsv(var("rlogK") * lg_to_ln); ref.reaction_volume = ts("rV");
  x.setThermoReferenceProperties(ref);
  x.setReferenceT(var("Tr")); x.setReferenceP(bar_to_Pa);
  ThermoParametersReaction p;
  if (model == 0) p.reaction_logK_fT_coeff = vars("a", 7);
  if (model == 1) p.reaction_Cp_fT_coeff = vars("c", 5);
  p.reaction_FM_coeff = vars("k", 7); p.reaction_DM10_coeff = vars("k", 5); p.reaction_RB_coeff = vars("k", 3);
  x.setThermoParameters(p);
  ThermoPropertiesReaction r;
  static const MT::type ek[] = {MT::CTM_EK0, MT::CTM_EK1, MT::CTM_EK2, MT::CTM_EK3};
  if (model <= 1) r = Reaction_LogK_fT(x).thermoProperties(T, Ppa, MT::CTM_LGK);
  else if (model <= 5) {
    x.setMethod_T(ek[model - 2]);
    r = Reaction_LogK_fT(x).thermoProperties(T, Ppa, ek[model - 2]);
    auto c = x.calc_logK_fT_coefficients();
    for (int i = 0; i < 7; i++) out(S_("c", i), c[i]);
  }
  else {
    auto w = water();
    r = model == 6 ? ReactionFrantzMarshall(x).thermoProperties(T, Ppa, w) : model == 7 ? ReactionDolejsManning10(x).thermoProperties(T, Ppa, w) : ReactionRyzhenkoBryzgalin(x).thermoProperties(T, Ppa, w);
  }
  outr("", r);
}
