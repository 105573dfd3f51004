// Reaction equations whose coefficients are free values
#include "common.h"
#include "ThermoFun/Reaction.h"
#include "number.h"
static std::string n(const char *v) { return num(v); }
static std::string form(int k) {
  switch (k) {
  case 0: return n("a") + "A + " + n("b") + "B = " + n("c") + "C + " + n("d") + "D";
  case 1: return "A + B = C";
  case 2: return n("a") + " A + " + n("b") + " B = " + n("c") + " C";
  case 3: return "-" + n("a") + "A + B = -C";
  case 4: return "A + " + n("a") + "A + B = B + " + n("b") + "C + " + n("c") + "A + C";
  case 5: return n("a") + "A =";
  case 6: return " = " + n("a") + "A";
  case 7: return "Ca+2 + " + n("a") + "CO3-2 = " + n("b") + "CaCO3";
  case 8: return n("a") + "(CH3)2 + B = " + n("b") + "(OH)2 + (H)";
  case 9: return "  " + n("a") + "A  +  " + n("b") + "B\t=\n " + n("c") + "C + \tD ";
  case 10: return "+" + n("a") + "A + B = +C + +(D)";
  case 11: return "H2O@ = H+ + OH-";
  case 12: return n("a") + "Fe+3 + " + n("b") + "e- = " + n("c") + "Fe+2";
  case 13: return "-(A) = -B + 2C";
  }
  return "";
}
int main() {
  quiet();
  int f = choice("form", 14), before = choice("before", 3), name = choice("name", 2);
  Reaction x; if (name) x.setSymbol("R");
  try {
    if (before == 1) x.fromEquation("A + 3X = 2Y");
    if (before == 2) x.setReactants({{"A", 5.0}, {"Z", -1.0}});
    auto e = form(f);
    x.fromEquation(e);
    auto m = x.reactants();
    outi("n", m.size());
    for (auto &k : m) out(k.first, k.second);
    outs("symbol", (name ? x.symbol() == "R" : before == 1 ? x.symbol() == "A + 3X = 2Y" : x.symbol() == e) ? "ok" : x.symbol());
    outs("equation", x.equation() == e ? "ok" : "other");
  } catch (const std::exception &e) { outi("raised", 1); }
}
