#pragma once
// A number of a text is written 7.77<index>5; the text-to-number function of the C library, stood in for here, gives the free value of that index.
#include "sym.h"
#include <cstring>
#include <string>
#include <vector>
static std::vector<std::string> toks;
static bool digit(char c) { return c >= '0' && c <= '9'; }
extern "C" double __strtod_internal(const char *, char **, int);
extern "C" double strtod(const char *s, char **e) {
  const char *b = s;
  while (*b == ' ' || *b == '\t' || *b == '\n') b++;
  bool neg = *b == '-'; if (*b == '-' || *b == '+') b++;
  const char *p = b;
  if (!strncmp(b, "7.77", 4)) {
    int k = 0, n = 0;
    for (p = b + 4; digit(*p) && n < 4; p++, n++) k = 10 * k + (*p - '0');
    if (n == 4 && *p == '5' && k < (int)toks.size()) { if (e) *e = (char *)p + 1; double v = var(toks[k]); return neg ? -v : v; }
  }
  return __strtod_internal(s, e, 0);   // the C library's own; the engine reads its inputs with it, too
}
static std::string num(const std::string &n) { toks.push_back(n); char b[40]; snprintf(b, sizeof b, "7.77%04d5", (int)toks.size() - 1); return b; }
