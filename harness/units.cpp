// units::convert: every unit of the table and compound units, with a free value.
#include "common.h"
#include "ThermoFun/Common/Units.hpp"
static const char *units_[] = {
#define U(n, f, d) n,
#include "units.inc"
#undef U
};
static const char *dims_[] = {
#define U(n, f, d) d,
#include "units.inc"
#undef U
};
static const char *compound[] = {
#define E(n, f, d) n,
#include "units_compound.inc"
#undef E
};
static const char *cdims[] = {
#define E(n, f, d) d,
#include "units_compound.inc"
#undef E
};
static const char *bad[] = {"", "*", "/", "/K", "K/", "*J", "J*", "J**K", "J//K", "()", "J/()", "(J", "J)", "J/(mol*K", "kJ(mol)", "J(K)", "nounit", "J/nounit", "nounit*K", "j", "J mol"};
template <size_t n> constexpr int len(const char *(&)[n]) { return n; }
int main() {
  quiet();
  double v = var("v"), w = var("w");
  switch (choice("what", 4)) {
  case 0:   // every unit to the product of SI base units it stands for, and back
    for (int i = 0; i < len(units_); i++) {
      std::string u = units_[i], d = dims_[i];
      try { out(S_("to", i), units::convert(v, u, d)); out(S_("back", i), units::convert(v, d, u)); outi(S_("ok", i), units::convertible(u, d) && units::convertible(d, u)); } catch (...) { outi(S_("ok", i), 0); }
    }
    break;
  case 1:   // dimensions: pairs of units are convertible exactly if their dimensions agree
    for (int i = 0; i < len(units_); i++) {
      int wrong = 0, silent = 0;
      for (int j = 0; j < len(units_); j++) {
        bool same = std::string(dims_[i]) == dims_[j], c = false, r = false;
        try { c = units::convertible(units_[i], units_[j]); } catch (...) { c = !same; }
        try { double x = units::convert(1.0, units_[i], units_[j]); r = x == x; } catch (...) {}
        wrong += c != same; silent += r != same;
      }
      outi(S_("pairs", i), wrong); outi(S_("raise", i), silent);
    }
    break;
  case 2:   // compound units
    for (int i = 0; i < len(compound); i++) {
      try { out(S_("to", i), units::convert(v, compound[i], cdims[i])); out(S_("back", i), units::convert(v, cdims[i], compound[i])); outi(S_("ok", i), units::convertible(compound[i], cdims[i])); } catch (...) { outi(S_("ok", i), 0); }
      outi(S_("no", i), 0);
      try { units::convert(v, std::string(compound[i]) + "*cd", cdims[i]); outi(S_("no", i), 1); } catch (const std::exception &) {}
    }
    break;
  case 3: {  // temperatures
    const char *t[] = {"K", "degC", "degF", "degR", "kelvin", "celsius", "fahrenheit", "rankine"};
    for (int i = 0; i < 8; i++)
      for (int j = 0; j < 8; j++) out("t" + std::to_string(i) + std::to_string(j), units::convert(v, t[i], t[j]));
    outi("tm", units::convertible("K", "m")); 
    for (int i = 0; i < len(bad); i++) {
      long r = 0;
      try { double x = units::convert(w, bad[i], "J"); r += x == x; } catch (const std::exception &) {}
      try { double x = units::convert(w, "J", bad[i]); r += 2 * (x == x); } catch (const std::exception &) {}
      outi(S_("bad", i), r);
    }
  }
  }
}
