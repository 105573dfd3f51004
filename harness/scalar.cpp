// Arithmetic on numbers that carry T and P derivatives: Common/ThermoScalar.hpp
#include <iostream>
#include "sym.h"
#include "ThermoFun/Common/ThermoScalar.hpp"
using namespace Reaktoro_;
using TS = ThermoScalarBase<double>;
static TS operand(const std::string &n, int sta) {
  return TS(var(n), var(n + "t"), var(n + "p"), var(n + "e"), {(Status)sta, "m"});
}
int main() {
  int op = choice("op", 32);
  int sa = choice("sa", 6), sb = choice("sb", 6);
  double c = 0;
  TS a = operand("a", sa), b = operand("b", sb), r;
  bool two = false, ok = true;
  auto k = [&] { c = var("c"); return c; };
  switch (op) {
  case 0: r = a + b; two = true; break;
  case 1: r = a - b; two = true; break;
  case 2: r = a * b; two = true; break;
  case 3: r = a / b; two = true; break;
  case 4: r = a; r += b; two = true; break;
  case 5: r = a; r -= b; two = true; break;
  case 6: r = a; r *= b; two = true; break;
  case 7: r = a; r /= b; two = true; break;
  case 8: r = a + k(); break;
  case 9: r = k() + a; break;
  case 10: r = a - k(); break;
  case 11: r = k() - a; break;
  case 12: r = a * k(); break;
  case 13: r = k() * a; break;
  case 14: r = a / k(); break;
  case 15: r = k() / a; break;
  case 16: r = a; r += k(); break;
  case 17: r = a; r -= k(); break;
  case 18: r = a; r *= k(); break;
  case 19: r = a; r /= k(); break;
  case 20: r = -a; break;
  case 21: r = sqrt(a); break;
  case 22: r = pow(a, k()); break;
  case 23: r = pow(a, b); two = true; break;
  case 24: r = exp(a); break;
  case 25: r = log(a); break;
  case 26: r = log10(a); break;
  case 27: r = a; r = k(); break;              // assignment of a plain number
  case 28: { TS t(a); r = t; break; }
  case 29: r = pow(a, 2); break;
  case 30: { Temperature T(var("a")); Pressure P(var("b")); outi("tsta", T.sta.first); out("Tt", T.ddt); out("Tp", T.ddp); out("Pt", P.ddt); out("Pp", P.ddp);
      r = T * P; out("Tv", T.val); out("Pv", P.val); break; }
  case 31: { k(); outi("lt", a < b); outi("le", a <= b); outi("gt", a > b); outi("ge", a >= b); outi("eq", a == b); outi("ne", a != b);
      outi("clt", a < c); outi("cle", a <= c); outi("cgt", a > c); outi("cge", a >= c); outi("ceq", a == c); outi("cne", a != c);
      outi("rlt", c < a); outi("rle", c <= a); outi("rgt", c > a); outi("rge", c >= a); outi("req", c == a); outi("rne", c != a); r = a; break; }
  }
  (void)two; (void)ok;
  out("v", r.val); out("t", r.ddt); out("p", r.ddp); out("e", r.err); outi("sta", r.sta.first);
}
