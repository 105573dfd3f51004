// Histories of operations on a database; the numbers of the records are free values.
#include "common.h"
#include <nlohmann/json.hpp>
#include "ThermoFun/Database.h"
#include "ThermoFun/Element.h"
#include "ThermoFun/Reaction.h"
using json = nlohmann::json;
// records in JSON carry the name of their free value
namespace ThermoFun {
static json props(const std::string &t) { auto j = json::parse(t); return j.contains("properties") ? j["properties"] : j; }
auto parseSubstance(const std::string &t) -> Substance { auto j = props(t); Substance s; s.setSymbol(j["symbol"]); s.setName(j["v"]); s.setMolarMass(var(j["v"])); return s; }
auto parseReaction(const std::string &t) -> Reaction { auto j = props(t); Reaction s; s.setSymbol(j["symbol"]); s.setName(j["v"]); s.setReferenceT(var(j["v"])); return s; }
auto parseElement(const std::string &t) -> Element { auto j = props(t); Element s; s.setSymbol(j["symbol"]); s.setName(j["v"]); s.setEntropy(var(j["v"])); return s; }
auto readConventions(const std::string &) -> DatabaseConventions { return {}; }
}
static Substance mk(const Substance *, const std::string &s, const std::string &v) { Substance r; r.setSymbol(s); r.setName(v); r.setMolarMass(var(v)); return r; }
static Reaction mk(const Reaction *, const std::string &s, const std::string &v) { Reaction r; r.setSymbol(s); r.setName(v); r.setReferenceT(var(v)); return r; }
static Element mk(const Element *, const std::string &s, const std::string &v) { Element r; r.setSymbol(s); r.setName(v); r.setEntropy(var(v)); r.setClass(0); r.setIsotopeMass(0); return r; }
struct KS { using X = Substance; using M = SubstancesMap; static std::string label() { return "substance"; } static double val(const X &x) { return x.molarMass(); } static void put(X &x, double v) { x.setMolarMass(v); }
  static void add(Database &d, const X &x) { d.addSubstance(x); } static void set(Database &d, const X &x) { d.setSubstance(x); } static void addj(Database &d, const std::string &x) { d.addSubstance(x); } static void setj(Database &d, const std::string &x) { d.setSubstance(x); }
  static void addm(Database &d, const M &x) { d.addMapSubstances(x); } static X &ref(Database &d, const std::string &s) { return d.substance(s); } static const X &get(const Database &d, const std::string &s) { return d.getSubstance(s); } static bool has(const Database &d, const std::string &s) { return d.containsSubstance(s); }
  static const M &map(const Database &d) { return d.mapSubstances(); } static std::vector<X> all(const Database &d) { return d.getSubstances(); } static std::vector<std::string> list(const Database &d) { return d.getSubstancesList(); } static size_t n(const Database &d) { return d.numberOfSubstances(); } };
struct KR { using X = Reaction; using M = ReactionsMap; static std::string label() { return "reaction"; } static double val(const X &x) { return x.referenceT(); } static void put(X &x, double v) { x.setReferenceT(v); }
  static void add(Database &d, const X &x) { d.addReaction(x); } static void set(Database &d, const X &x) { d.setReaction(x); } static void addj(Database &d, const std::string &x) { d.addReaction(x); } static void setj(Database &d, const std::string &x) { d.setReaction(x); }
  static void addm(Database &d, const M &x) { d.addMapReactions(x); } static X &ref(Database &d, const std::string &s) { return d.reaction(s); } static const X &get(const Database &d, const std::string &s) { return d.getReaction(s); } static bool has(const Database &d, const std::string &s) { return d.containsReaction(s); }
  static const M &map(const Database &d) { return d.mapReactions(); } static std::vector<X> all(const Database &d) { return d.getReactions(); } static std::vector<std::string> list(const Database &d) { return d.getReactionsList(); } static size_t n(const Database &d) { return d.numberOfReactions(); } };
struct KE { using X = Element; using M = ElementsMap; static std::string label() { return "element"; } static double val(const X &x) { return x.entropy(); } static void put(X &x, double v) { x.setEntropy(v); }
  static void add(Database &d, const X &x) { d.addElement(x); } static void set(Database &d, const X &x) { d.setElement(x); } static void addj(Database &d, const std::string &x) { d.addElement(x); } static void setj(Database &d, const std::string &x) { d.setElement(x); }
  static void addm(Database &d, const M &x) { d.addMapElements(x); } static X &ref(Database &d, const std::string &s) { return d.element(s); } static const X &get(const Database &d, const std::string &s) { return d.getElement(s); } static bool has(const Database &d, const std::string &s) { return d.containsElement(s); }
  static const M &map(const Database &d) { return d.mapElements(); } static std::vector<X> all(const Database &d) { return d.getElements(); } static std::vector<std::string> list(const Database &d) { return d.getElementsList(); } static size_t n(const Database &d) { return d.numberOfElements(); } };
static std::string rec(const std::string &s, const std::string &v, const std::string &label = "") {
  std::string p = "{\"symbol\":\"" + s + "\",\"v\":\"" + v + "\"}";
  return label.empty() ? p : "{\"_label\":\"" + label + "\",\"properties\":" + p + "}";
}
template <class K> static void op(Database &d, int o, const std::string &v) {
  using X = typename K::X; X *t = nullptr; std::string a = v + "a", b = v + "b", l = K::label();
  auto m = [&](const char *s, const std::string &v) { return mk(t, s, v); };
  switch (o) {
  case 1: K::add(d, m("A", a)); break;
  case 2: K::add(d, m("B", a)); break;
  case 3: K::set(d, m("A", a)); break;
  case 4: K::addj(d, rec("A", a)); break;
  case 5: K::setj(d, rec("B", a)); break;
  case 6: d.appendData(std::vector<std::string>{rec("A", a)}, l); break;
  case 7: d.appendData("[" + rec("A", a, l) + "," + rec("B", b, l) + "]"); break;
  case 8: d.appendData("{\"" + l + "s\":[" + rec("A", a) + "," + rec("C", b) + "]}"); break;
  case 9: K::addm(d, {{"B", m("B", a)}, {"C", m("C", b)}}); break;
  case 10: K::put(K::ref(d, "A"), var(a)); break;
  case 11: { Database e(d); K::set(e, m("A", a)); K::put(K::ref(e, "B"), var(b)); if (K::val(K::get(e, "A")) != var(a)) outi("lost", 1); break; }
  case 12: { Database e; e = d; K::set(d, m("A", a)); K::addm(d, {{"B", m("B", b)}}); d = e; K::put(K::ref(e, "A"), var(b)); break; }
  case 13: try { K::get(d, "Z"); outi("noraise", 1); } catch (const std::exception &) {} break;
  case 14: try { d.appendData("/nonexistent/file.json"); outi("noraise", 1); } catch (const std::exception &) {} break;
  case 15: { auto x = m("A", a); K::add(d, x); K::put(x, var(b)); break; }
  }
}
template <class K> static void rest(const Database &d, const std::string &p) {
  outi(p + "n", K::n(d)); outi(p + "has", K::has(d, "A")); outi(p + "z", K::has(d, "Z")); std::string l; for (auto &s : K::list(d)) l += s + ","; outs(p + "list", l);
  l.clear(); for (auto &x : K::all(d)) l += x.symbol() + ","; outs(p + "all", l); l.clear(); for (auto &x : K::map(d)) l += x.first + "=" + x.second.symbol() + ","; outs(p + "map", l);
  auto all = K::all(d); size_t i = 0;
  for (auto &s : K::list(d)) { out(p + s, K::val(K::get(d, s))); out(p + "all" + s, K::val(all[i++])); out(p + "map" + s, K::val(K::map(d).at(s))); outs(p + "sym" + s, K::get(d, s).symbol()); }
}
template <class K> static void run(Database &d) {
  for (int s = 1; s <= 3; s++) op<K>(d, choice(S_("op", s), 16), S_("v", s));
}
int main() {
  quiet();
  int kind = choice("kind", 3);
  Database d;
  if (choice("start", 2)) { KS::add(d, mk((Substance *)0, "A", "s0")); KR::add(d, mk((Reaction *)0, "A", "r0")); KE::add(d, mk((Element *)0, "A", "e0")); }
  try {
    if (kind == 0) run<KS>(d);
    if (kind == 1) run<KR>(d);
    if (kind == 2) run<KE>(d);
    rest<KS>(d, "s"); rest<KR>(d, "r"); rest<KE>(d, "e");
    for (auto s : {"A", "B", "C"}) out(std::string("entropy") + s, d.elementalEntropyFormula(s));
    out("formula", d.elementalEntropyFormula("A2B3(AC)2"));
    outi("nform", 0);
    try { auto m = d.parseSubstanceFormula("A2"); outi("nform", m.size()); for (auto &e : m) { out("formcoef", e.second); out("formval", e.first.entropy()); } } catch (const std::exception &) {}   // no such element
  } catch (const std::exception &e) { outi("raised", 1); outs("what", e.what()); }
}
