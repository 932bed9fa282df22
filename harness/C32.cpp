//@ rt: str_rt.cpp
//@ bound: every text of length <= 4 (quick) / 5 (thorough) over {a, b, ','} and every separator of length <= 2 over the same alphabet; texts of length <= 20 with one separator kind
//@ bound: single-character separators: every 8-bit character value in texts of length <= 3
//@ assume: std::string is the installed libstdc++ one (executed, not modelled)
//@ harness: any budget=150 expect=join,no-token,count
//@ harness: single budget=100 expect=join1,no-token1
//@ harness: longer budget=60 expect=long-n,long-part
#include "sx.h"
#include <ndt_gslam/utils/string_tools.h>
using slamuk::split;
static std::string txt(const char* n, int len, int sigma) {
  std::string s;
  for (int i = 0; i < len; ++i) s += (char)(sigma == 3 ? "ab,"[sx_conc(sx_int(n, 0, 2))] : sx_int(n, -128, 127));
  return s;
}
static size_t findTok(const std::string& s, const std::string& t, size_t from) {
  for (size_t i = from; i + t.size() <= s.size(); ++i) {
    bool ok = true;
    for (size_t k = 0; k < t.size(); ++k) if (s[i + k] != t[k]) { ok = false; break; }
    if (ok) return i;
  }
  return (size_t)-1;
}
static void decide(const std::string& d, const std::string& t, const char* lj, const char* ln, const char* lc) {
  std::vector<std::string> p = split(d, t);
  sx_check(!p.empty(), "some");
  std::string j;
  size_t cuts = 0;
  for (size_t i = 0; i < p.size(); ++i) { if (i) { j += t; ++cuts; } j += p[i]; }
  sx_check(j.size() == d.size(), lj);
  for (size_t i = 0; i < d.size(); ++i) sx_check(j[i] == d[i], lj);
  for (auto& x : p) sx_check(t.empty() || findTok(x, t, 0) == (size_t)-1, ln);
  size_t n = 0;  // leftmost non-overlapping occurrences
  if (!t.empty()) for (size_t i = findTok(d, t, 0); i != (size_t)-1; i = findTok(d, t, i + t.size())) ++n;
  sx_check(cuts == n, lc);
}
SX_HARNESS(any) {
  int ld = (int)sx_conc(sx_int("ld", 0, SX_TIER(4, 5))), lt = (int)sx_conc(sx_int("lt", 0, 2));
  std::string d = txt("d", ld, 3), t = txt("t", lt, 3);
  decide(d, t, "join", "no-token", "count");
}
SX_HARNESS(single) {
  int ld = (int)sx_conc(sx_int("ld", 0, 3));
  std::string d = txt("d", ld, 256), t = txt("t", 1, 256);
  decide(d, t, "join1", "no-token1", "count1");
}
SX_HARNESS(longer) {  // n pieces of chosen lengths
  int n = (int)sx_conc(sx_int("n", 1, 3));
  std::string d, sep = sx_bool("two") ? "::" : ",";
  int len[3];
  for (int i = 0; i < n; ++i) {
    len[i] = (int)sx_conc(sx_int("len", 0, 6));
    if (i) d += sep;
    d += std::string(len[i], (char)('a' + i));
  }
  std::vector<std::string> p = split(d, sep);
  sx_check((int)p.size() == n, "long-n");
  for (int i = 0; i < n; ++i) sx_check(p[i] == std::string(len[i], (char)('a' + i)), "long-part");
}
