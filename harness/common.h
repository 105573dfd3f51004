#pragma once
// Shared pieces of the harnesses.
#include "sym.h"
#include <string>
#include <vector>
#include "ThermoFun/ThermoProperties.h"
#include "ThermoFun/ThermoParameters.h"
#include "ThermoFun/GlobalVariables.h"
#include "ThermoFun/Substance.h"
#include "ThermoFun/Common/Exception.h"
using namespace ThermoFun;
using TS = Reaktoro_::ThermoScalar;
inline void quiet() { if (thfun_logger) thfun_logger->set_level(spdlog::level::off); }
inline TS ts(const std::string &n) { TS t(var(n)); t.sta = {Reaktoro_::Status::read, ""}; return t; }
inline TS tsv(double v) { TS t(v); t.sta = {Reaktoro_::Status::read, ""}; return t; }
inline void outts(const std::string &n, const TS &t) { out(n, t.val); out(n + "_T", t.ddt); out(n + "_P", t.ddp); }
inline void outst(const std::string &n, const TS &t) { outi(n + "_sta", (int)t.sta.first); }
inline void outsub(const std::string &p, const ThermoPropertiesSubstance &r) {
  out(p + "G", r.gibbs_energy.val); out(p + "H", r.enthalpy.val); out(p + "S", r.entropy.val); out(p + "Cp", r.heat_capacity_cp.val);
  out(p + "V", r.volume.val); out(p + "U", r.internal_energy.val); out(p + "A", r.helmholtz_energy.val); out(p + "Cv", r.heat_capacity_cv.val);
}
inline void outsub_full(const std::string &p, const ThermoPropertiesSubstance &r) {
  outts(p + "G", r.gibbs_energy); outts(p + "H", r.enthalpy); outts(p + "S", r.entropy); outts(p + "Cp", r.heat_capacity_cp);
  outts(p + "V", r.volume); outts(p + "U", r.internal_energy); outts(p + "A", r.helmholtz_energy); outts(p + "Cv", r.heat_capacity_cv);
}
inline std::string S_(const std::string &a, int i) { return a + std::to_string(i); }
inline std::vector<double> vars(const std::string &n, int k) { std::vector<double> v; for (int i = 0; i < k; i++) v.push_back(var(S_(n, i))); return v; }
// validity limits that no state in the claim leaves
inline void wide(Substance &s) { s.setLowerT(0); s.setUpperT(1e9); s.setLowerP(0); s.setUpperP(1e15); }
