// Runtime of the symbolic executor (see DESIGN.md, section "Engine").
// A symbolic double is a NaN-boxed index into a hash-consed expression DAG.  Every node carries the
// concrete value ("shadow") the operation has for the current concrete inputs, so that branch
// decisions follow a real execution; the driver negates decisions with the help of the solver.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
#include <execinfo.h>
#include <exception>

namespace {
typedef uint64_t u64; typedef uint32_t u32;
inline u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
inline double fromb(u64 u) { double d; memcpy(&d, &u, 8); return d; }
const u64 TAG = 0x7FFD;
inline bool isS(double d) { return (bits(d) >> 48) == TAG; }
inline u32 idof(double d) { return (u32)bits(d); }
inline double box(u32 id) { return fromb((TAG << 48) | id); }

enum Op { CONST, VAR, ADD, SUB, MUL, DIV, NEG, POW, EXP, LOG, SQRT, FABS, FN1, FN2, UFN };
struct Node { int op; u32 a, b; double imm; double sh; int name; };
struct Key { int op; u32 a, b; u64 imm; int name;
  bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b && imm == o.imm && name == o.name; } };
struct KH { size_t operator()(const Key &k) const { u64 h = k.op * 0x9E3779B97F4A7C15ull; h ^= (u64)k.a * 0xBF58476D1CE4E5B9ull; h = (h << 7) | (h >> 57);
  h ^= (u64)k.b * 0x94D049BB133111EBull; h = (h << 9) | (h >> 55); h ^= k.imm; h *= 0xD6E8FEB86659FD93ull; h ^= k.name; return h ^ (h >> 32); } };
struct Dec { int op; u32 a, b; int taken; u64 site; };
struct State {
  std::vector<Node> nodes; std::unordered_map<Key, u32, KH> cons;
  std::vector<std::string> names; std::map<std::string, int> nameid;
  std::map<std::vector<u32>, u32> ufs; std::vector<std::vector<u32>> ufargs; std::vector<int> ufname; std::vector<u32> ufnode;
  std::vector<Dec> decs; std::map<std::vector<u64>, int> decided;
  std::map<std::string, double> in; std::map<std::string, long> ch;
  std::string outbuf; std::map<std::string, double> varnodes;
  size_t maxdec = 20000, maxnodes = 4000000; bool dumped = false;
  State() {
    if (const char *p = getenv("SYM_IN")) {
      FILE *f = fopen(p, "r"); char k[8], n[256], v[64];
      if (f) { while (fscanf(f, "%7s %255s %63s", k, n, v) == 3) { if (k[0] == 'v') in[n] = strtod(v, nullptr); else ch[n] = atol(v); } fclose(f); }
    }
    if (const char *p = getenv("SYM_MAXDEC")) maxdec = atol(p);
  }
};
State &S() { static State *s = new State; return *s; }
int nm(const char *n) { auto &s = S(); auto it = s.nameid.find(n); if (it != s.nameid.end()) return it->second;
  int i = s.names.size(); s.names.push_back(n); s.nameid[n] = i; return i; }

void dump(const char *status) {
  State &s = S(); if (s.dumped) return; s.dumped = true;
  const char *p = getenv("SYM_OUT"); FILE *f = p ? fopen(p, "w") : stdout; if (!f) _exit(97);
  fprintf(f, "status %s\n", status);
  for (size_t i = 0; i < s.names.size(); i++) fprintf(f, "name %zu %s\n", i, s.names[i].c_str());
  for (size_t i = 0; i < s.nodes.size(); i++) { Node &n = s.nodes[i];
    fprintf(f, "n %d %u %u %016lx %016lx %d", n.op, n.a, n.b, bits(n.imm), bits(n.sh), n.name);
    if (n.op == UFN) for (u32 a : s.ufargs[n.a]) fprintf(f, " %u", a);
    fputc('\n', f); }
  for (auto &d : s.decs) fprintf(f, "d %d %u %u %d %lx\n", d.op, d.a, d.b, d.taken, d.site);
  fputs(s.outbuf.c_str(), f);
  fputs("end\n", f);
  if (f != stdout) fclose(f);
}
[[noreturn]] void stop(const char *why) { dump(why); fflush(stdout); _exit(0); }

u32 mk(int op, u32 a, u32 b, double imm, double sh, int name) {
  State &s = S(); Key k{op, a, b, bits(imm), name};
  auto it = s.cons.find(k); if (it != s.cons.end()) return it->second;
  if (s.nodes.size() > s.maxnodes) stop("nodelimit");
  u32 id = s.nodes.size(); s.nodes.push_back({op, a, b, imm, sh, name}); s.cons[k] = id; return id;
}
u32 toid(double d) { return isS(d) ? idof(d) : mk(CONST, 0, 0, d, d, -1); }
inline double sh(double d) { return isS(d) ? S().nodes[idof(d)].sh : d; }
double n2(int op, double a, double b, double r) { u32 x = toid(a), y = toid(b); return box(mk(op, x, y, 0, r, -1)); }
double n1(int op, double a, double r) { return box(mk(op, toid(a), 0, 0, r, -1)); }
double f1(const char *n, double a, double r) { return box(mk(FN1, toid(a), 0, 0, r, nm(n))); }
double f2(const char *n, double a, double b, double r) { u32 x = toid(a), y = toid(b); return box(mk(FN2, x, y, 0, r, nm(n))); }

// canonical decisions: 0 a<b, 1 a<=b, 2 a==b
bool decide(int op, double a, double b, u64 site) {
  State &s = S(); u32 x = toid(a), y = toid(b);
  if (op == 2 && x > y) std::swap(x, y);
  if (x == y) return op != 0;
  std::vector<u64> k{(u64)op, x, y};
  auto it = s.decided.find(k); if (it != s.decided.end()) return it->second;
  if (op != 2) { // !(b<=a) == a<b
    std::vector<u64> k2{(u64)(1 - op), y, x}; auto jt = s.decided.find(k2); if (jt != s.decided.end()) return !jt->second; }
  double u = s.nodes[x].sh, v = s.nodes[y].sh;
  bool r = op == 0 ? u < v : op == 1 ? u <= v : u == v;
  if (s.decs.size() >= s.maxdec) stop("declimit");
  s.decs.push_back({op, x, y, r, site}); s.decided[k] = r; return r;
}
u64 hashstr(const char *n) { u64 h = 1469598103934665603ull; for (; *n; n++) { h ^= (unsigned char)*n; h *= 1099511628211ull; } return h; }
void onsig(int sig) { char b[32]; snprintf(b, sizeof b, "signal:%d", sig); dump(b); _exit(0); }
struct Init { Init() { S();
  static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) { struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(sg, &sa, nullptr); }
  atexit([] { dump("ok"); }); } } init_;
} // namespace

extern "C" {
double sym_ufval(const char *name, int n, const double *a) {
  // a smooth, name-dependent concrete interpretation of an uninterpreted function
  u64 h = hashstr(name); double r = 1.0 + (double)((h >> 11) & 1023) / 1024.0;
  for (int i = 0; i < n; i++) { h = h * 6364136223846793005ull + 1442695040888963407ull; double c = (double)((h >> 33) & 4095) / 4096.0 + 0.25;
    double x = std::asinh(a[i] * 1e-2 * (i + 1)); r += 0.2 * c * x + 0.1 * std::sin(x * 3 * c); }
  return r;
}
#ifdef SYM_NATIVE
double sym_var(const char *name) { auto &s = S(); auto it = s.in.find(name); double v = it == s.in.end() ? 0.0 : it->second; return v; }
double sym_ufn(const char *name, int n, const double *a) { return sym_ufval(name, n, a); }
#else
double sym_var(const char *name) { auto &s = S(); auto it = s.varnodes.find(name); if (it != s.varnodes.end()) return it->second;
  auto jt = s.in.find(name); double v = jt == s.in.end() ? 0.0 : jt->second; double r = box(mk(VAR, 0, 0, 0, v, nm(name))); s.varnodes[name] = r; return r; }
double sym_ufn(const char *name, int n, const double *a) {
  State &s = S(); std::vector<u32> k; std::vector<double> shv; bool any = false; (void)any;
  int id = nm(name); k.push_back(id); for (int i = 0; i < n; i++) { k.push_back(toid(a[i])); shv.push_back(sh(a[i])); }
  auto it = s.ufs.find(k); if (it != s.ufs.end()) return box(it->second);
  double v = sym_ufval(name, n, shv.data()); u32 ai = s.ufargs.size(); s.ufargs.push_back(std::vector<u32>(k.begin() + 1, k.end()));
  u32 node = mk(UFN, ai, 0, 0, v, id); s.ufs[k] = node; return box(node);
}
#endif
int sym_choice(const char *name, int n) { auto &s = S(); auto it = s.ch.find(name); long v = it == s.ch.end() ? 0 : it->second; if (v < 0 || v >= n) stop("badchoice");
  char b[400]; snprintf(b, sizeof b, "c %s %ld %d\n", name, v, n); s.outbuf += b; return (int)v; }
void sym_out(const char *name, double v) { char b[500];
  if (isS(v)) snprintf(b, sizeof b, "o %s s %u\n", name, idof(v)); else snprintf(b, sizeof b, "o %s c %016lx\n", name, bits(v)); S().outbuf += b; }
void sym_out_int(const char *name, long v) { char b[500]; snprintf(b, sizeof b, "i %s %ld\n", name, v); S().outbuf += b; }
void sym_out_str(const char *name, const char *v) { std::string r = "t "; r += name; r += ' '; for (const char *p = v; *p; p++) { if (*p == '\n') r += "\\n"; else r += *p; } r += '\n'; S().outbuf += r; }
void sym_assume(bool c) { if (!c) stop("assume"); }
double sym_shadow(double v) { return sh(v); }
int sym_is_symbolic(double v) { return isS(v); }

#define SITE ((u64)__builtin_return_address(0))
double sym_fadd(double a, double b) { if (!isS(a) && !isS(b)) return a + b; if (!isS(a) && a == 0) return b; if (!isS(b) && b == 0) return a; return n2(ADD, a, b, sh(a) + sh(b)); }
double sym_fsub(double a, double b) { if (!isS(a) && !isS(b)) return a - b; if (!isS(b) && b == 0) return a; if (isS(a) && isS(b) && idof(a) == idof(b)) return 0.0; return n2(SUB, a, b, sh(a) - sh(b)); }
double sym_fmul(double a, double b) { if (!isS(a) && !isS(b)) return a * b; if (!isS(a)) { if (a == 0) return 0.0; if (a == 1) return b; } if (!isS(b)) { if (b == 0) return 0.0; if (b == 1) return a; } return n2(MUL, a, b, sh(a) * sh(b)); }
double sym_fdiv(double a, double b) { if (!isS(a) && !isS(b)) return a / b; if (!isS(b) && b == 1) return a; if (!isS(a) && a == 0) return 0.0; return n2(DIV, a, b, sh(a) / sh(b)); }
double sym_fneg(double a) { if (!isS(a)) return -a; return n1(NEG, a, -sh(a)); }
double sym_pow(double a, double b) { if (!isS(a) && !isS(b)) return std::pow(a, b); if (!isS(b)) { if (b == 0) return 1.0; if (b == 1) return a; } return n2(POW, a, b, std::pow(sh(a), sh(b))); }
double sym_exp(double a) { if (!isS(a)) return std::exp(a); return n1(EXP, a, std::exp(sh(a))); }
double sym_log(double a) { if (!isS(a)) return std::log(a); return n1(LOG, a, std::log(sh(a))); }
double sym_sqrt(double a) { if (!isS(a)) return std::sqrt(a); return n1(SQRT, a, std::sqrt(sh(a))); }
double sym_fabs(double a) { if (!isS(a)) return std::fabs(a); if (decide(0, a, 0.0, SITE)) return sym_fneg(a); return a; }
double sym___exp_finite(double a) { return sym_exp(a); }
double sym___log_finite(double a) { return sym_log(a); }
double sym___pow_finite(double a, double b) { return sym_pow(a, b); }
#define F1(NAME) double sym_##NAME(double a) { if (!isS(a)) return std::NAME(a); return f1(#NAME, a, std::NAME(sh(a))); }
F1(log10) F1(log2) F1(cbrt) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(exp2) F1(expm1) F1(log1p)
F1(floor) F1(ceil) F1(round) F1(trunc) F1(rint) F1(nearbyint)
#define F2(NAME) double sym_##NAME(double a, double b) { if (!isS(a) && !isS(b)) return std::NAME(a, b); return f2(#NAME, a, b, std::NAME(sh(a), sh(b))); }
F2(atan2) F2(hypot)
double sym_fmod(double a, double b) { if (!isS(a) && !isS(b)) return std::fmod(a, b); return f2("fmod", a, b, std::fmod(sh(a), sh(b))); }
double sym_fmax(double a, double b) { if (!isS(a) && !isS(b)) return std::fmax(a, b); return decide(0, a, b, SITE) ? b : a; }
double sym_fmin(double a, double b) { if (!isS(a) && !isS(b)) return std::fmin(a, b); return decide(0, b, a, SITE) ? b : a; }
double sym_copysign(double a, double b) { if (!isS(a) && !isS(b)) return std::copysign(a, b);
  double m = sym_fabs(a); bool neg = isS(b) ? decide(0, b, 0.0, SITE) : std::signbit(b); return neg ? sym_fneg(m) : m; }
bool sym_fcmp(int pred, double a, double b) {
  if (!isS(a) && !isS(b)) {
    bool un = std::isnan(a) || std::isnan(b);
    switch (pred) { case 0: return false; case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
      case 6: return !un && a != b; case 7: return !un; case 8: return un; case 9: return un || a == b; case 10: return un || a > b; case 11: return un || a >= b;
      case 12: return un || a < b; case 13: return un || a <= b; case 14: return a != b; default: return true; } }
  // a concrete NaN / infinity against a symbolic (finite real) value
  double c = isS(a) ? b : a; bool other = !(isS(a) && isS(b));
  if (other && std::isnan(c)) { return pred >= 8; }
  if (other && std::isinf(c)) { double av = isS(a) ? 0 : a, bv = isS(b) ? 0 : b; return sym_fcmp(pred, av, bv); }
  u64 site = SITE;
  switch (pred) {
  case 0: return false; case 7: return true; case 8: return false; case 15: return true;
  case 1: case 9: return decide(2, a, b, site);
  case 6: case 14: return !decide(2, a, b, site);
  case 2: case 10: return decide(0, b, a, site);
  case 3: case 11: return decide(1, b, a, site);
  case 4: case 12: return decide(0, a, b, site);
  case 5: case 13: return decide(1, a, b, site);
  }
  return false;
}
bool sym_isfpclass(double a, int mask) {
  if (isS(a)) { // finite real: only the sign and zero-ness are undetermined; normal/zero bits
    bool fin = mask & (8 | 16 | 32 | 64 | 128 | 256); bool allfin = (mask & (8 | 256)) == (8 | 256);
    if (!fin) return false; if (allfin && (mask & 96) == 96) return true;
    if ((mask & 96) == 96 || (mask & (8|256)) == 0) return decide(2, a, 0.0, SITE);
    if (allfin) return !decide(2, a, 0.0, SITE);
    return (mask & 256) ? decide(0, 0.0, a, SITE) : decide(0, a, 0.0, SITE); }
  switch (std::fpclassify(a)) { case FP_NAN: return mask & 3; case FP_INFINITE: return mask & (a < 0 ? 4 : 512);
    case FP_ZERO: return mask & (std::signbit(a) ? 32 : 64); case FP_SUBNORMAL: return mask & (a < 0 ? 16 : 128); default: return mask & (a < 0 ? 8 : 256); }
}
// concretisation: the path is restricted to the values with the same integer part (a pair of decisions)
int64_t sym_fptosi(double a) { if (!isS(a)) return (int64_t)a; double t = std::trunc(sh(a));
  if (t >= 0) { decide(0, a, t + 1, SITE); if (t > 0) decide(1, t, a, SITE); else decide(0, -1.0, a, SITE); }
  else { decide(1, a, t, SITE); decide(0, t - 1, a, SITE); }
  return (int64_t)t; }
int64_t sym_fptoui(double a) { return sym_fptosi(a); }
double sym_concretize(double a) { if (!isS(a)) return a; double v = sh(a); decide(2, a, v, SITE); return v; }
}
