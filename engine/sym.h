// Harness API.  The same harness source is compiled twice:
//  * instrumented (symbolic/concolic run, symrt.cpp)
//  * native       (-DSYM_NATIVE, symrt.cpp compiled in native mode): sym_var returns the plain value.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
extern "C" {
// symbolic double input; its concrete shadow comes from the driver
double sym_var(const char *name);
// bounded nondeterministic choice in [0,n)
int sym_choice(const char *name, int n);
void sym_out(const char *name, double v);
void sym_out_int(const char *name, long v);
void sym_out_str(const char *name, const char *v);
// path is outside the claim unless the condition holds
void sym_assume(bool c);
// concrete (shadow) value of a possibly symbolic double
double sym_shadow(double v);
int sym_is_symbolic(double v);
double sym_ufn(const char *name, int n, const double *args);
}
inline double sym_uf(const std::string &name, std::initializer_list<double> a) {
  std::vector<double> v(a); return sym_ufn(name.c_str(), (int)v.size(), v.data());
}
inline void out(const std::string &n, double v) { sym_out(n.c_str(), v); }
inline void outi(const std::string &n, long v) { sym_out_int(n.c_str(), v); }
inline void outs(const std::string &n, const std::string &v) { sym_out_str(n.c_str(), v.c_str()); }
inline double var(const std::string &n) { return sym_var(n.c_str()); }
inline int choice(const std::string &n, int k) { return sym_choice(n.c_str(), k); }
