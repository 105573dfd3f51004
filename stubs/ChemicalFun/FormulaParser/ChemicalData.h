// Stand-in for the ChemicalFun package (not available offline): the environment of Database.cpp and
// Element.cpp, not the code under test.  Same interface, a small formula grammar.
#pragma once
#include <cctype>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
namespace ChemicalFun {
class ElementKey {
  std::string s_; int c_, i_;
public:
  ElementKey(const std::string &s, int c = 0, int i = 0) : s_(s), c_(c), i_(i) {}
  const std::string &Symbol() const { return s_; }
  int Class() const { return c_; }
  int Isotope() const { return i_; }
  friend bool operator<(const ElementKey &a, const ElementKey &b) { return std::tie(a.s_, a.c_, a.i_) < std::tie(b.s_, b.c_, b.i_); }
  friend bool operator==(const ElementKey &a, const ElementKey &b) { return std::tie(a.s_, a.c_, a.i_) == std::tie(b.s_, b.c_, b.i_); }
};
struct ElementValues {
  std::string recid; double atomic_mass = 0, entropy = 0, heat_capacity = 0, volume = 0; int valence = 0, number = 0; std::string name;
};
using ElementsData = std::map<ElementKey, ElementValues>;
struct FormulaProperties { std::string formula; double charge = 0, atomic_mass = 0, elemental_entropy = 0, atoms_formula_unit = 0; };
class FormulaToken {
  std::string f_; std::map<ElementKey, double> st_; double z_ = 0;
  void group(size_t &p, std::map<ElementKey, double> &m) {
    while (p < f_.size()) {
      std::map<ElementKey, double> one; char c = f_[p];
      if (c == '(') { ++p; group(p, one); if (p < f_.size() && f_[p] == ')') ++p; }
      else if (std::isupper((unsigned char)c)) { std::string n(1, c); ++p; while (p < f_.size() && std::islower((unsigned char)f_[p])) n += f_[p++]; one[ElementKey(n)] = 1; }
      else return;
      size_t q = p; while (q < f_.size() && (std::isdigit((unsigned char)f_[q]) || f_[q] == '.')) ++q;
      double k = q > p ? std::atof(f_.substr(p, q - p).c_str()) : 1; p = q;
      for (auto &e : one) m[e.first] += k * e.second;
    }
  }
public:
  explicit FormulaToken(const std::string &f) : f_(f) {
    size_t p = 0; group(p, st_);
    if (p < f_.size() && (f_[p] == '+' || f_[p] == '-')) { int sg = f_[p] == '+' ? 1 : -1; ++p; z_ = sg * (p < f_.size() && std::isdigit((unsigned char)f_[p]) ? std::atof(f_.substr(p).c_str()) : 1); }
    if (z_ != 0) st_[ElementKey("Zz", 4)] = z_;
  }
  const std::map<ElementKey, double> &getStoichCoefficients() const { return st_; }
  FormulaProperties properties(const ElementsData &d) const {
    FormulaProperties r; r.formula = f_; r.charge = z_;
    for (auto &e : st_) { auto it = d.find(e.first); if (it == d.end()) continue; r.atomic_mass += it->second.atomic_mass * e.second; r.elemental_entropy += it->second.entropy * e.second; }
    return r;
  }
};
class DBElements {
  ElementsData d_;
public:
  void addElement(const ElementKey &k, const ElementValues &v) { d_[k] = v; }
  const ElementsData &elements() const { return d_; }
  FormulaProperties formulasProperties(const std::string &f) const { return FormulaToken(f).properties(d_); }
  static int defaultValence(const std::string &s) { return s == "O" ? -2 : s == "H" ? 1 : 0; }
};
}
