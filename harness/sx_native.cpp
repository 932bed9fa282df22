// Native side of sx.h: reads inputs from a file, reports the first failed check.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
static std::map<std::string, void (*)()>& tab() { static std::map<std::string, void (*)()> t; return t; }
SxReg::SxReg(const char* n, void (*f)()) { tab()[n] = f; }
static std::vector<std::pair<std::string, std::string>> in;
static size_t pos = 0;
static FILE* tr = nullptr;
static std::string next(const char* name) {
  if (pos >= in.size()) { printf("SX-INPUT-EXHAUSTED %s\n", name); fflush(stdout); _Exit(4); }
  if (in[pos].first != name) { printf("SX-INPUT-MISMATCH %s %s\n", name, in[pos].first.c_str()); fflush(stdout); _Exit(4); }
  return in[pos++].second;
}
extern "C" {
int sx_is_symbolic() { return 0; }
long sx_int(const char* n, long, long) { return atol(next(n).c_str()); }
double sx_fix(const char* n, long, long, int) { return strtod(next(n).c_str(), 0); }
double sx_real(const char* n, double, double) { return strtod(next(n).c_str(), 0); }
double sx_angle(const char* n, double, double) { return strtod(next(n).c_str(), 0); }
double sx_f64(const char* n) { return strtod(next(n).c_str(), 0); }
void sx_assume(bool c) { if (!c) { printf("SX-ASSUME-FAILED\n"); fflush(stdout); _Exit(3); } }
void sx_check(bool c, const char* l) {
  if (tr) fprintf(tr, "T C:%s\n", l);
  if (!c) { printf("SX-VIOLATION %s\n", l); fflush(stdout); if (tr) fflush(tr); _Exit(9); }
}
void sx_eq(double a, double b, double tol, const char* l) {
  if (tr) { fprintf(tr, "T E:%s\nO %s %.17g\n", l, l, a); }
  double m = 1.0;
  if (fabs(a) > m) m = fabs(a);
  if (fabs(b) > m) m = fabs(b);
  if (!(a == b || fabs(a - b) <= tol * m)) { printf("SX-VIOLATION %s got %.17g expected %.17g\n", l, a, b); fflush(stdout); if (tr) fflush(tr); _Exit(9); }
}
void sx_reach(const char* l) { if (tr) fprintf(tr, "T R:%s\n", l); }
void sx_obs(const char* l, double v) { if (tr) fprintf(tr, "O %s %.17g\n", l, v); }
long sx_conc(long v) { return v; }
double sx_ite(bool c, double a, double b) { return c ? a : b; }
void sx_lazy(bool) {}
void sx_end() { printf("SX-OK\n"); fflush(stdout); if (tr) fflush(tr); _Exit(0); }
}
static void onTerminate() {
  const char* n = "unknown";
  if (std::exception_ptr e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { n = typeid(x).name(); } catch (...) {} }
  printf("SX-TERMINATE %s\n", n); fflush(stdout); _Exit(10);
}
int main(int argc, char** argv) {
  std::set_terminate(onTerminate);
  if (argc < 3) { for (auto& p : tab()) printf("%s\n", p.first.c_str()); return 0; }
  FILE* f = fopen(argv[2], "r");
  if (!f) return 5;
  char a[256], b[256];
  while (fscanf(f, "%255s %255s", a, b) == 2) in.push_back({a, b});
  fclose(f);
  if (argc > 3) tr = fopen(argv[3], "w");
  auto it = tab().find(argv[1]);
  if (it == tab().end()) { printf("SX-NO-HARNESS\n"); return 5; }
  it->second();
  printf("SX-OK\n");
  if (tr) fclose(tr);
  fflush(stdout);
  return 0;
}
