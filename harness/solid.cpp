// Volume corrections of solids: Berman88, Landau (HP98), Murnaghan (HP98), Birch-Murnaghan (Gottschalk)
#include "common.h"
#include "ThermoFun/ThermoModelsSubstance.h"
static ThermoPropertiesSubstance in(const std::string &p) {
  ThermoPropertiesSubstance r;
  r.gibbs_energy = ts(p + "G"); r.enthalpy = ts(p + "H"); r.entropy = ts(p + "S"); r.heat_capacity_cp = ts(p + "Cp"); r.volume = ts(p + "V"); r.heat_capacity_cv = ts(p + "Cv");
  r.internal_energy = ts(p + "U"); r.helmholtz_energy = ts(p + "A");
  return r;
}
#ifdef BM
// the Birch-Murnaghan equation of state (12 coefficients), pressure in the units of kt0
static double eos(double v, double vt, double kt0, double kp, double kpp) {
  double x = std::pow(vt / v, 2. / 3.);
  return 1.5 * kt0 * (1. + 0.75 * (kp - 4.) * (x - 1.) + 0.375 * (143. / 9. - 7. * kp + kp * kp + kpp * kt0) * (x - 1.) * (x - 1.)) * (x - 1.) * std::pow(vt / v, 5. / 3.);
}
namespace verif_stub {
int mode = 0;
TS bmvol(Reaktoro_::Pressure P, TS vt, TS kt0, TS kp, TS kpp, TS) {
  // mode 0: the volume at the state of interest is the free variable; mode 1: an unknown function of everything it may depend on
  double v = mode == 0 ? var("v") : sym_uf("bmv", {P.val, vt.val, kt0.val, kp.val, kpp.val});
  TS r(v); r.sta = {Reaktoro_::Status::calculated, ""}; return r;
}
}
namespace ThermoFun { __attribute__((weak)) auto BM_Volume(Reaktoro_::Pressure P, TS vt, TS kt0, TS kp, TS kpp, TS vstart) -> TS; }
#endif
int main() {
  quiet();
  int model = choice("model", 5), at = choice("at", 4);
  Substance s; s.setSymbol("X"); s.setName("X");
  ThermoPropertiesSubstance ref; ref.volume = ts("V0"); s.setThermoReferenceProperties(ref);
  double Tr = var("Tr"), Pr = var("Pr"), T = var("T"), P = var("P");   // Pr, P in bar
  s.setReferenceT(Tr); s.setReferenceP(Pr * bar_to_Pa); wide(s);
  if (at & 1) T = Tr;
  if (at & 2) P = Pr;
  ThermoParametersSubstance p;
  auto tps = in("i");
  ThermoPropertiesSubstance r;
  double Ppa = P * bar_to_Pa;
  switch (model) {
  case 0: p.volume_coeff = vars("vc", 5); break;
  case 1: case 2: p.m_landau_phase_trans_props = {var("Tc"), var("Smax"), model == 1 ? var("Vmax") : 0.0}; // fallthrough
  case 3: p.isothermal_compresibility = var("k0"); p.isobaric_expansivity = var("a0"); break;
  case 4: p.volume_BirchM_coeff = vars("bm", 9); if (choice("kpp0", 2)) p.volume_BirchM_coeff[8] = 0; break;
  }
  s.setThermoParameters(p);
  auto run = [&](double t) {
    return model == 0 ? MinBerman88(s).thermoProperties(t, Ppa, tps) : model <= 2 ? HPLandau(s).thermoProperties(t, Ppa, tps)
         : model == 3 ? MinMurnaghanEOSHP98(s).thermoProperties(t, Ppa, tps) : MinBMGottschalk(s).thermoProperties(t, Ppa, tps); };
#ifdef BM
  auto &b = p.volume_BirchM_coeff;
  double vt = var("V0") * 10 * std::exp(b[0] * (T - Tr) + b[1] / 2 * (T * T - Tr * Tr) + b[2] * (1 / Tr - 1 / T)), kt0 = b[5] + b[6] * (T - Tr), kp = b[7], kpp = b[8];
  if (choice("kpp0", 2)) kpp = -((35. / 9. + (3. - kp) * (4. - kp)) / kt0);
  verif_stub::mode = choice("bm", 3);
  if (verif_stub::mode == 2) {   // the solver for the volume itself, started at the solution
    double v = var("v");
    if (!ThermoFun::BM_Volume) { outi("absent", 1); return 0; }
    double Pm = eos(v, vt, kt0, kp, kpp);
    TS r = ThermoFun::BM_Volume(Reaktoro_::Pressure(Pm), tsv(vt), tsv(kt0), tsv(kp), tsv(kpp), tsv(v));
    out("v1", r.val); return 0;
  }
  if (verif_stub::mode == 0) { P = eos(var("v"), vt, kt0, kp, kpp) * 10; Ppa = P * bar_to_Pa; out("P", P); }
  r = run(T);
  outsub("", r);
  if (verif_stub::mode == 1) { auto a = run(T + 0.1), b = run(T - 0.1); out("G+", a.gibbs_energy.val); out("G-", b.gibbs_energy.val); }
#else
  r = run(T);
  outsub_full("", r);
#endif
}
