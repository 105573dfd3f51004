// Stand-ins for the calculation models: each property is an uninterpreted function of everything the caller passes.
// Used where the subject is the code that selects and combines models (ThermoEngine.cpp, ThermoBatch.cpp), not the models.
#include "models_uf.h"
#include "ThermoFun/ThermoModelsSubstance.h"
#include "ThermoFun/ThermoModelsSolvent.h"
#include "ThermoFun/ElectroModelsSolvent.h"
#include "ThermoFun/ThermoModelsReaction.h"
#include "ThermoFun/Reaction.h"
namespace muf {
std::map<std::string, int> undef;
std::vector<std::string> calls;
bool touch_p = true;
static TS prop(const std::string &n, const std::string &p, int bit, const std::vector<double> &a) {
  auto it = undef.find(n);
  if (it != undef.end() && (it->second >> bit & 1)) return TS();
  auto u = [&](const char *s) { return sym_ufn((n + ":" + p + s).c_str(), (int)a.size(), a.data()); };
  TS t(u("")); t.ddt = u("_T"); t.ddp = u("_P"); t.err = 0; t.sta = {Reaktoro_::Status::calculated, ""};
  return t;
}
static std::vector<double> with(std::initializer_list<double> h, const ThermoPropertiesSubstance &t) {
  std::vector<double> v(h);
  for (auto x : {t.gibbs_energy.val, t.enthalpy.val, t.entropy.val, t.heat_capacity_cp.val, t.volume.val, t.internal_energy.val, t.helmholtz_energy.val, t.heat_capacity_cv.val}) v.push_back(x);
  return v;
}
ThermoPropertiesSubstance sub(const std::string &n, std::vector<double> a) {
  calls.push_back(n);
  ThermoPropertiesSubstance r;
  r.gibbs_energy = prop(n, "G", 0, a); r.enthalpy = prop(n, "H", 1, a); r.entropy = prop(n, "S", 2, a); r.heat_capacity_cp = prop(n, "Cp", 3, a);
  r.volume = prop(n, "V", 4, a); r.internal_energy = prop(n, "U", 5, a); r.helmholtz_energy = prop(n, "A", 6, a); r.heat_capacity_cv = prop(n, "Cv", 7, a);
  return r;
}
static ThermoPropertiesReaction rea(const std::string &n, std::vector<double> a) {
  calls.push_back(n);
  ThermoPropertiesReaction r;
  r.reaction_gibbs_energy = prop(n, "G", 0, a); r.reaction_enthalpy = prop(n, "H", 1, a); r.reaction_entropy = prop(n, "S", 2, a); r.reaction_heat_capacity_cp = prop(n, "Cp", 3, a);
  r.reaction_volume = prop(n, "V", 4, a); r.reaction_internal_energy = prop(n, "U", 5, a); r.reaction_helmholtz_energy = prop(n, "A", 6, a); r.reaction_heat_capacity_cv = prop(n, "Cv", 7, a);
  r.ln_equilibrium_constant = prop(n, "lnK", 8, a); r.log_equilibrium_constant = prop(n, "logK", 9, a);
  return r;
}
static PropertiesSolvent solv(const std::string &n, std::vector<double> a) {
  calls.push_back(n);
  PropertiesSolvent r{};
#define P_(x) r.x = prop(n, #x, 0, a)
  P_(Alpha); P_(dAldT); P_(Beta); P_(Albe); P_(density); P_(densityT); P_(densityP); P_(densityTT); P_(densityTP); P_(densityPP); P_(pressure);
  P_(pressureT); P_(pressureD); P_(pressureTT); P_(pressureTD); P_(pressureDD);
  return r;
}
static ElectroPropertiesSolvent elec(const std::string &n, std::vector<double> a) {
  calls.push_back(n);
  ElectroPropertiesSolvent r{};
  P_(epsilon); P_(epsilonT); P_(epsilonP); P_(epsilonTT); P_(epsilonTP); P_(epsilonPP); P_(bornZ); P_(bornY); P_(bornQ); P_(bornN); P_(bornU); P_(bornX);
  return r;
}
static void sat(const std::string &n, double T, double &P) { if (touch_p && P == 0) P = sym_uf("Psat:" + n, {T}); }
}
using namespace muf;
namespace ThermoFun {
#define SIMPL(C, K) struct C::Impl { K s; }; C::C(const K &s) : pimpl(new Impl{s}) {}
#define NM(c) (std::string(c ":") + pimpl->s.symbol())
SIMPL(SoluteAkinfievDiamondEOS, Substance) SIMPL(WaterIdealGasWoolley, Substance) SIMPL(SoluteHKFgems, Substance) SIMPL(SoluteHKFreaktoro, Substance)
SIMPL(SoluteHollandPowell98, Substance) SIMPL(SoluteAnderson91, Substance) SIMPL(MinMurnaghanEOSHP98, Substance) SIMPL(MinBerman88, Substance) SIMPL(MinBMGottschalk, Substance)
SIMPL(EmpiricalCpIntegration, Substance) SIMPL(EntropyCpIntegration, Substance) SIMPL(HPLandau, Substance) SIMPL(GasCORK, Substance) SIMPL(GasPRSV, Substance) SIMPL(GasCGF, Substance)
SIMPL(GasSRK, Substance) SIMPL(GasPR78, Substance) SIMPL(GasSTP, Substance) SIMPL(ConMolVol, Substance) SIMPL(IdealGasLawVol, Substance)
SIMPL(WaterHGK, Substance) SIMPL(WaterHGKreaktoro, Substance) SIMPL(WaterWP95reaktoro, Substance) SIMPL(WaterZhangDuan2005, Substance)
SIMPL(WaterJNreaktoro, Substance) SIMPL(WaterJNgems, Substance) SIMPL(WaterElectroSverjensky2014, Substance) SIMPL(WaterElectroFernandez1997, Substance)
SIMPL(ReactionDolejsManning10, Reaction) SIMPL(ReactionFrantzMarshall, Reaction) SIMPL(ReactionRyzhenkoBryzgalin, Reaction) SIMPL(Reaction_LogK_fT, Reaction)
SIMPL(ReactionFromReactantsProperties, Reaction) SIMPL(Reaction_Vol_fT, Reaction)
using TPS = ThermoPropertiesSubstance;
using TPR = ThermoPropertiesReaction;
auto SoluteAkinfievDiamondEOS::thermoProperties(double T, double P, TPS tps, const TPS &wtp, const TPS &wigp, const PropertiesSolvent &wp, const TPS &wtpr, const TPS &wigpr, const PropertiesSolvent &wpr) -> TPS {
  auto a = with({T, P}, tps);
  for (double x : {wtp.gibbs_energy.val, wigp.gibbs_energy.val, wp.density.val, wtpr.gibbs_energy.val, wigpr.gibbs_energy.val, wpr.density.val}) a.push_back(x);
  return sub(NM("AKI"), a); }
auto WaterIdealGasWoolley::thermoProperties(double T, double P) -> TPS { return sub(NM("WIG"), {T, P}); }
auto SoluteHKFgems::thermoProperties(double T, double P, PropertiesSolvent wp, ElectroPropertiesSolvent we) -> TPS { return sub(NM("HKF"), {T, P, wp.density.val, we.epsilon.val}); }
auto SoluteHKFreaktoro::thermoProperties(double T, double P, PropertiesSolvent wp, ElectroPropertiesSolvent we) -> TPS { return sub(NM("HKFR"), {T, P, wp.density.val, we.epsilon.val}); }
auto SoluteHollandPowell98::thermoProperties(double T, double P, const PropertiesSolvent &wpr, const PropertiesSolvent &wp) -> TPS { return sub(NM("HP98"), {T, P, wpr.density.val, wp.density.val}); }
auto SoluteAnderson91::thermoProperties(double T, double P, const PropertiesSolvent &wpr, const PropertiesSolvent &wp) -> TPS { return sub(NM("AN91"), {T, P, wpr.density.val, wp.density.val}); }
#define COR(C, n) auto C::thermoProperties(double T, double P, TPS tps) -> TPS { return sub(NM(n), with({T, P}, tps)); }
COR(MinMurnaghanEOSHP98, "CEH") COR(MinBerman88, "VBE") COR(MinBMGottschalk, "VBM") COR(HPLandau, "CHP") COR(ConMolVol, "CON")
auto EmpiricalCpIntegration::thermoProperties(double T, double P) -> TPS { return sub(NM("CPT"), {T, P}); }
auto EntropyCpIntegration::thermoProperties(double T, double P) -> TPS { return sub(NM("CST"), {T, P}); }
#define GASM(C, n) auto C::thermoProperties(double T, double P, TPS tps, bool ap) -> TPS { return sub(ap ? NM(n "+p") : NM(n), with({T, P}, tps)); }
GASM(GasCORK, "CORK") GASM(GasPRSV, "PRSV") GASM(GasCGF, "EMP") GASM(GasSRK, "SRK") GASM(GasPR78, "PR78") GASM(GasSTP, "STP") GASM(IdealGasLawVol, "OFF")
#define WAT(C, n) \
  auto C::propertiesSolvent(double T, double &P, int state) -> PropertiesSolvent { sat(n, T, P); return solv(NM(n) + ":" + std::to_string(state), {T, P}); } \
  auto C::thermoPropertiesSubstance(double T, double &P, int state, std::string tr) -> TPS { sat(n, T, P); return sub(NM(n) + ":" + std::to_string(state) + ":" + tr, {T, P}); }
WAT(WaterHGKreaktoro, "WAR") WAT(WaterWP95reaktoro, "WWP")
auto WaterHGK::propertiesSolvent(double T, double &P, int state, std::string) -> PropertiesSolvent { sat("WAT", T, P); return solv(NM("WAT") + ":" + std::to_string(state), {T, P}); }
auto WaterHGK::thermoPropertiesSubstance(double T, double &P, int state, std::string tr) -> TPS { sat("WAT", T, P); return sub(NM("WAT") + ":" + std::to_string(state) + ":" + tr, {T, P}); }
auto WaterZhangDuan2005::propertiesSolvent(double T, double P, int state) -> PropertiesSolvent { return solv(NM("WZD") + ":" + std::to_string(state), {T, P}); }
auto WaterZhangDuan2005::thermoPropertiesSubstance(double T, double P, int state) -> TPS { return sub(NM("WZD") + ":" + std::to_string(state), {T, P}); }
auto WaterJNreaktoro::electroPropertiesSolvent(double T, double P, PropertiesSolvent ps, int state) -> ElectroPropertiesSolvent { return elec(NM("WJNR") + ":" + std::to_string(state), {T, P, ps.density.val}); }
#define ELE(C, n) auto C::electroPropertiesSolvent(double T, double P, int state) -> ElectroPropertiesSolvent { return elec(NM(n) + ":" + std::to_string(state), {T, P}); }
ELE(WaterJNgems, "WJNG") ELE(WaterElectroSverjensky2014, "WSV14") ELE(WaterElectroFernandez1997, "WF97")
#define RW(C, n) auto C::thermoProperties(double T, double P, PropertiesSolvent wp) -> TPR { return rea(NM(n), {T, P, wp.density.val}); }
RW(ReactionDolejsManning10, "DMD") RW(ReactionFrantzMarshall, "DKR") RW(ReactionRyzhenkoBryzgalin, "MRB")
auto Reaction_LogK_fT::thermoProperties(double T, double P, MethodCorrT_Thrift::type m) -> TPR { return rea(NM("LGK") + ":" + std::to_string((int)m), {T, P}); }
auto ReactionFromReactantsProperties::thermoProperties(double T, double P) -> TPR { return rea(NM("RFR"), {T, P}); }
auto Reaction_Vol_fT::thermoProperties(double T, double P) -> TPR { return rea(NM("VOL"), {T, P}); }
}
