// ThermoBatch and its outputs over a stand-in engine whose properties are free functions of (T,P) per symbol.
#include "common.h"
#include "ThermoFun/ThermoEngine.h"
#include "ThermoFun/Database.h"
#include "ThermoFun/Batch/ThermoBatch.h"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <stdlib.h>
#include <filesystem>
// numbers written to a stream become tokens #index:precision:format#
static std::vector<double> cells;
extern "C" std::ostream *_ZNSo9_M_insertIdEERSoT_(std::ostream *s, double v) {
  cells.push_back(v);
  auto f = s->flags();
  std::string t = "#" + std::to_string(cells.size() - 1) + ":" + std::to_string(s->precision()) + ":" + ((f & std::ios::fixed) ? "f" : "") + ((f & std::ios::scientific) ? "s" : "") + "#";
  s->write(t.data(), t.size());
  return s;
}
static std::string undefS, undefP;   // this property of this symbol is not defined
static void set(TS &t, const std::string &p, const std::string &s, double T, double P) { t = TS(sym_uf(p + "." + s, {T, P})); t.sta = {p == undefP && s == undefS ? Reaktoro_::Status::notdefined : Reaktoro_::Status::calculated, ""}; }
static ThermoPropertiesSubstance sub(double T, double P, const std::string &s) {
  ThermoPropertiesSubstance r;
  set(r.gibbs_energy, "gibbs_energy", s, T, P); set(r.helmholtz_energy, "helmholtz_energy", s, T, P); set(r.internal_energy, "internal_energy", s, T, P); set(r.enthalpy, "enthalpy", s, T, P);
  set(r.entropy, "entropy", s, T, P); set(r.volume, "volume", s, T, P); set(r.heat_capacity_cp, "heat_capacity_cp", s, T, P); set(r.heat_capacity_cv, "heat_capacity_cv", s, T, P);
  return r;
}
static ThermoPropertiesReaction rea(double T, double P, const std::string &s) {
  ThermoPropertiesReaction r;
  set(r.reaction_gibbs_energy, "reaction_gibbs_energy", s, T, P); set(r.reaction_helmholtz_energy, "reaction_helmholtz_energy", s, T, P); set(r.reaction_internal_energy, "reaction_internal_energy", s, T, P); set(r.reaction_enthalpy, "reaction_enthalpy", s, T, P);
  set(r.reaction_entropy, "reaction_entropy", s, T, P); set(r.reaction_volume, "reaction_volume", s, T, P); set(r.reaction_heat_capacity_cp, "reaction_heat_capacity_cp", s, T, P); set(r.reaction_heat_capacity_cv, "reaction_heat_capacity_cv", s, T, P);
  set(r.log_equilibrium_constant, "logKr", s, T, P); set(r.ln_equilibrium_constant, "lnKr", s, T, P);
  return r;
}
namespace ThermoFun {
struct Database::Impl {};
Database::Database() : pimpl(new Impl) {}
struct ThermoEngine::Impl { EnginePreferences p; EngineConventions c; };
ThermoEngine::ThermoEngine(const Database &) : pimpl(new Impl) {}
ThermoEngine::ThermoEngine(const std::string) : pimpl(new Impl) {}
ThermoEngine::ThermoEngine(const ThermoEngine &o) : pimpl(o.pimpl) {}
auto ThermoEngine::setSolventSymbol(const std::string s) -> void { pimpl->p.solvent_symbol = s; }
static void sat(double T, double &P) { if (P == 0) P = 700 * T + 1000; }   // a stand-in with different pressures at different temperatures
auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string s) const -> ThermoPropertiesSubstance { sat(T, P); return sub(T, P, s); }
auto ThermoEngine::thermoPropertiesReaction(double T, double &P, std::string s) const -> ThermoPropertiesReaction { sat(T, P); return rea(T, P, s); }
auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, std::string s) const -> ThermoPropertiesReaction { sat(T, P); return rea(T, P, "fr" + s); }
auto ThermoEngine::propertiesSolvent(double T, double &P, std::string s, int) const -> PropertiesSolvent { return {}; }
auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string s, int) const -> ElectroPropertiesSolvent { return {}; }
}
static void table(const std::string &pre, const std::string &file, const std::string &sep) {
  std::ifstream f(file);
  std::string l; int r = 0;
  while (std::getline(f, l)) {
    int c = 0;
    for (size_t p = 0; p <= l.size();) {
      auto e = l.find(sep, p); if (e == l.npos) e = l.size();
      auto s = l.substr(p, e - p); p = e + sep.size();
      auto id = pre + std::to_string(r) + "_" + std::to_string(c++);
      int k, pr; char fm[9] = "";
      if (sscanf(s.c_str(), "#%d:%d:%8[fs]#", &k, &pr, fm) >= 2) { out(id, cells.at(k)); outi("dg" + id, pr * 10 + (fm[0] == 'f' ? 1 : fm[0] == 's' ? 2 : 0)); } else outs(id, s + "|");
    }
    outi(pre + "cols" + std::to_string(r++), c);
  }
  outi(pre + "rows", r);
}
#ifdef STEPS
int main() {
  quiet();
  try {
    ThermoBatch b{ThermoEngine(Database())};
    double T0 = var("T0"), P0 = var("P0"), wT = var("wT"), wP = var("wP");
    b.setTemperatureIncrement(T0, T0 + wT, var("dT")); b.setPressureIncrement(P0, P0 + wP, var("dP"));
    b.setBatchPreferences(BatchPreferences());
    auto o = b.thermoPropertiesSubstance({"A"}, {"gibbs_energy"});
    auto v = o.to2DVectorDouble();
    // the shape of the grid from the number of distinct columns of the header
    char dir[] = "/tmp/vbatchXXXXXX";
    if (!mkdtemp(dir)) return 3;
    auto cwd = std::filesystem::current_path();
    std::filesystem::current_path(dir);
    o.toCSVPropertyGrid("g.csv");
    std::ifstream f("gibbs_energy_g.csv"); std::string l; std::getline(f, l); f.close();
    std::filesystem::current_path(cwd); std::filesystem::remove_all(dir);
    long m = std::count(l.begin(), l.end(), ',') - 1, n = v.size() / m;
    outi("nT", n); outi("nP", m); outi("rest", v.size() % m);
    for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) out("g" + std::to_string(i) + "_" + std::to_string(j), v[i * m + j][0]);
  } catch (...) { outi("raised", 1); }
}
#else
int main() {
  quiet();
  int kind = choice("kind", 3), call = choice("call", 7), pf = choice("pairsfirst", 2), tp = choice("tthenp", 2), o = choice("out", 4), un = choice("units", 2), ps = choice("psat", 2), nd = choice("undef", 3), dup = choice("dup", 2);
  bool R = kind > 0;
  std::string sep = un ? ";" : ",";
  std::vector<std::string> sy = {"A" + sep + "1", "B", "C"}, pr = R ? std::vector<std::string>{"reaction_gibbs_energy", "reaction_entropy", "logKr", "reaction_volume", "reaction_heat_capacity_cv"} : std::vector<std::string>{"gibbs_energy", "entropy", "volume", "heat_capacity_cp", "helmholtz_energy"};
  if (call == 6) pr = R ? std::vector<std::string>{"lnKr", "reaction_enthalpy", "reaction_internal_energy", "reaction_heat_capacity_cp", "reaction_helmholtz_energy"} : std::vector<std::string>{"enthalpy", "heat_capacity_cv", "internal_energy", "volume", "entropy"};
  if (call == 0) { sy.resize(1); pr.resize(1); }
  if (nd) { undefS = (kind == 2 ? "fr" : "") + sy[call == 0 ? 0 : 1]; undefP = pr[call == 0 ? 0 : 1]; }
  double T0 = var("T0"), T1 = dup ? T0 : var("T1"), T2 = var("T2"), P0 = ps ? 0 : var("P0"), P1 = ps ? 0 : var("P1");
  ThermoBatch b{ThermoEngine(Database())};
  BatchPreferences p;
  p.loopOverTPpairsFirst = pf; p.loopTemperatureThenPressure = tp; p.reactionPropertiesFromReactants = kind == 2; p.separator = sep; p.isFixed = un == 0; p.isScientific = un == 1; p.writeNaNifNotDefinedValue = nd == 1;
  b.setBatchPreferences(p);
  if (un) {
    b.setPropertiesUnits({"temperature", "pressure"}, {"degC", "bar"});
    b.setPropertiesDigits({"temperature", "pressure"}, {4, 6});
    if (R) { b.setPropertyUnitDigit("reaction_gibbs_energy", "kJ/mol", 7); b.setPropertyUnit("reaction_entropy", "cal/(mol*K)"); b.setPropertyUnit("reaction_volume", "cm3"); b.setPropertyUnit("reaction_enthalpy", "kcal/mol"); b.setPropertyDigit("logKr", 5); }
    else { b.setPropertyUnitDigit("gibbs_energy", "kJ/mol", 7); b.setPropertyUnit("entropy", "cal/(mol*K)"); b.setPropertyUnit("volume", "cm3"); b.setPropertyUnit("enthalpy", "kcal/mol"); b.setPropertyDigit("heat_capacity_cp", 5); }
  }
  std::string dir = "/tmp/vbatchXXXXXX";
  if (!mkdtemp(dir.data())) return 3;
  auto cwd = std::filesystem::current_path();
  std::filesystem::current_path(dir);
  try {
    b.thermoPropertiesSubstance(400, 5e5, "Z", "enthalpy");   // an earlier batch must leave nothing behind
    vvd pairs = {{T0, P0}, {T1, P0}, {T0, P1}};
    std::vector<double> Ts = {T0, T1, T2}, Ps = {P0, P1};
    if (ps) { pairs.pop_back(); Ps.pop_back(); }
    if (call == 2) { b.setTemperatureIncrement(T0, T0 + var("dT") * 2, var("dT")); if (ps) b.setPressureIncrement(0, 0, 0); else b.setPressureIncrement(P0, P0 + var("dP"), var("dP")); }
    vtps vs; vtpr vr;   // properties provided by the caller, in the order of the calculation
    if (call > 4) for (int i = 0; i < 18; i++) { if (R) vr.push_back(rea(i, 1, S_("given", i))); else vs.push_back(sub(i, 1, S_("given", i))); }
    auto res = R ? (call == 0 ? b.thermoPropertiesReaction(T0, P0, sy[0], pr[0]) : call == 1 ? b.thermoPropertiesReaction(T0, P0, sy, pr) : call == 2 ? b.thermoPropertiesReaction(sy, pr) : call == 3 ? b.thermoPropertiesReaction(pairs, sy, pr) :
                    call == 4 ? b.thermoPropertiesReaction(Ts, Ps, sy, pr) : call == 5 ? b.thermoPropertiesReaction(Ts, Ps, sy, pr, vr) : b.thermoPropertiesReaction(vvd{{T0, P0}, {T1, P1}, {T2, P0}, {T2, P1}, {T0, P1}, {T1, P0}}, sy, pr, vr))
                 : (call == 0 ? b.thermoPropertiesSubstance(T0, P0, sy[0], pr[0]) : call == 1 ? b.thermoPropertiesSubstance(T0, P0, sy, pr) : call == 2 ? b.thermoPropertiesSubstance(sy, pr) : call == 3 ? b.thermoPropertiesSubstance(pairs, sy, pr) :
                    call == 4 ? b.thermoPropertiesSubstance(Ts, Ps, sy, pr) : call == 5 ? b.thermoPropertiesSubstance(Ts, Ps, sy, pr, vs) : b.thermoPropertiesSubstance(vvd{{T0, P0}, {T1, P1}, {T2, P0}, {T2, P1}, {T0, P1}, {T1, P0}}, sy, pr, vs));
    if (o == 0) {
      out("first", res.toDouble()); auto t = res.toThermoScalar(); out("scalar", t.val); outi("status", (int)t.sta.first);
      auto v = res.to2DVectorDouble(); outi("rows", v.size());
      for (size_t i = 0; i < v.size(); i++) { outi(S_("cols", i), v[i].size()); for (size_t j = 0; j < v[i].size(); j++) out(std::to_string(i) + "_" + std::to_string(j), v[i][j]); }
    } else if (o == 1) { res.toCSV("r.csv"); table("", "r.csv", sep); }
    else if (o == 2) { res.toCSVTransposed("r.csv"); table("", "r.csv", sep); }
    else { res.toCSVPropertyGrid("g.csv"); for (size_t i = 0; i < pr.size(); i++) table(S_("f", i) + "_", pr[i] + "_g.csv", sep); }
    outi("raised", 0);
  } catch (...) { outi("raised", 1); }
  std::filesystem::current_path(cwd);
  std::filesystem::remove_all(dir);
}
#endif
