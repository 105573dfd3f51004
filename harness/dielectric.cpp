// Dielectric constant models of water.  JN: Johnson-Norton as in Reaktoro; GEMS: Johnson-Norton as in SUPCRT92/GEMS and the
// conversion of its work structures; otherwise Fernandez 1997 and Sverjensky 2014 over a stand-in density rho(T,P).
#include <memory>
#include <sstream>
#include <map>
#include <unordered_map>
#ifdef GEMS
#define private public
#endif
#include "ThermoFun/Substances/Solvent/WaterHGK-JNgems.h"
#undef private
#include "common.h"
#include "ThermoFun/ElectroModelsSolvent.h"
#include "ThermoFun/ThermoEngine.h"
#include "ThermoFun/Database.h"
static void outel(const ElectroPropertiesSolvent &e) {
  out("eps", e.epsilon.val); out("epsT", e.epsilonT.val); out("epsP", e.epsilonP.val); out("epsTT", e.epsilonTT.val); out("epsTP", e.epsilonTP.val); out("epsPP", e.epsilonPP.val);
  out("Z", e.bornZ.val); out("Y", e.bornY.val); out("Q", e.bornQ.val); out("N", e.bornN.val); out("U", e.bornU.val); out("X", e.bornX.val);
  auto un = [](const TS &t) { return (long)(t.sta.first == Reaktoro_::Status::notdefined); };
  outi("undef", un(e.epsilon) + un(e.epsilonT) + un(e.epsilonP) + un(e.epsilonTT) + un(e.bornZ) + un(e.bornY) + un(e.bornQ) + un(e.bornX));
  outi("undefN", un(e.bornN) + un(e.bornU) + un(e.epsilonTP)); outi("undefPP", un(e.epsilonPP));
}
#if defined(JN)
int main() {
  quiet();
  Substance s; s.setSymbol("H2O@"); wide(s);
  PropertiesSolvent w;
  w.density = ts("D"); w.densityT = ts("DT"); w.densityP = ts("DP"); w.densityTT = ts("DTT"); w.densityTP = ts("DTP"); w.densityPP = ts("DPP");
  try { outel(WaterJNreaktoro(s).electroPropertiesSolvent(var("T"), var("P"), w, choice("state", 2))); outi("raised", 0); } catch (...) { outi("raised", 1); }
}
#elif defined(GEMS)
int main() {
  quiet();
  try {
    WaterHGKgems w; memset(&w.wl, 0, sizeof w.wl); memset(&w.wr, 0, sizeof w.wr);
    int isat = choice("isat", 2), state = choice("state", 2), from = choice("from", 2);   // from: the work structure with the numbers
    w.aSpc.isat = isat; w.aSpc.metastable = !isat; w.aSta.Pres = var("P"); w.aSta.Temp = var("T") - 273.15;
    WPROPS &x = from ? w.wl : w.wr;
    double D = var("D"), al = var("al"), be = var("be"), da = var("da");
    w.Born92(var("T"), var("P"), D / 1000, be, &al, &da, &x.Dielw, &x.ZBorn, &x.QBorn, &x.YBorn, &x.XBorn, 4);
    x.Alphaw = al; x.Betaw = be; x.dAldT = da; w.aSta.Dens[from] = D / 1000;
    x.Aw = var("A"); x.Gw = var("G"); x.Sw = var("S"); x.Uw = var("U"); x.Hw = var("H"); x.Cvw = var("Cv"); x.Cpw = var("Cp");
    if (from == (isat ? state == 1 : state == 0)) {
      outel(w.electroPropertiesWaterJNgems(state));
      auto p = w.propertiesWaterHGKgems(state);
      out("density", p.density.val); out("densityT", p.densityT.val); out("densityP", p.densityP.val); out("densityTT", p.densityTT.val); out("Alpha", p.Alpha.val); out("Beta", p.Beta.val); out("dAldT", p.dAldT.val); out("pressure", p.pressure.val);
      outsub("", w.thermoPropertiesWaterHGKgems(state));
      outi("used", 1);
    } else outi("used", 0);
    outi("raised", 0);
  } catch (...) { outi("raised", 1); }
}
#else
static double hiT, loT, hiP, loP; static int calls = 0, wrong = 0;
namespace ThermoFun {
static std::vector<Substance> subs;
struct Database::Impl {};
Database::Database() : pimpl(new Impl) {}
Database::Database(const Database &o) : pimpl(o.pimpl) {}
auto Database::addSubstance(const Substance &s) -> void { subs.push_back(s); }
struct ThermoEngine::Impl { Database db; };
ThermoEngine::ThermoEngine(const Database &d) : pimpl(new Impl{d}) {}
auto ThermoEngine::propertiesSolvent(double T, double &P, std::string sym, int state) const -> PropertiesSolvent {
  if (!calls++) { hiT = loT = T; hiP = loP = P; }
  if (T > hiT) hiT = T; if (T < loT) loT = T; if (P > hiP) hiP = P; if (P < loP) loP = P;
  wrong += sym != "H2O@" || state != choice("state", 2) || subs.size() != 1 || subs[0].symbol() != "H2O@" || subs[0].name() != "W";
  PropertiesSolvent w; w.density = tsv(sym_uf("rho", {T, P})); return w;
}
auto ThermoEngine::propertiesSolvent(double T, double &P, const Substance &s, int state) const -> PropertiesSolvent { return propertiesSolvent(T, P, s.symbol(), state); }
}
int main() {
  quiet();
  Substance s; s.setSymbol("H2O@"); s.setName("W"); wide(s);
  int state = choice("state", 2);
  double T = choice("zero", 2) ? 273.15 : var("T"), P = var("P");
  try {
    outel(choice("model", 2) ? WaterElectroSverjensky2014(s).electroPropertiesSolvent(T, P, state) : WaterElectroFernandez1997(s).electroPropertiesSolvent(T, P, state));
    out("hiT", hiT); out("loT", loT); out("hiP", hiP); out("loP", loP);
    outi("wrong", wrong); outi("raised", 0);
  } catch (...) { outi("raised", 1); }
}
#endif
