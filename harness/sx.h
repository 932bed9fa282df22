// Harness API: symbolic inputs, assumptions and checks.
// Compiled twice: to LLVM IR for the symbolic executor (SX_SYMBOLIC, the sx_*
// functions are engine primitives) and natively for replay of counterexamples
// and validation of witnesses against the real code.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
extern "C" {
int sx_is_symbolic();
long sx_int(const char* name, long lo, long hi);
double sx_fix(const char* name, long lo, long hi, int q);  // k*2^q, lo<=k<=hi
double sx_real(const char* name, double lo, double hi);
double sx_angle(const char* name, double lo, double hi);
double sx_f64(const char* name);
void sx_assume(bool c);
void sx_check(bool c, const char* label);
void sx_eq(double a, double b, double tol, const char* label);
void sx_reach(const char* label);
void sx_obs(const char* label, double v);
long sx_conc(long v);
double sx_ite(bool c, double a, double b);
void sx_lazy(bool on);  // name the nonlinear terms of comparisons
void sx_end();
}
#ifdef SX_SYMBOLIC
#define SX_HARNESS(name) extern "C" void h_##name()
#else
struct SxReg { SxReg(const char* n, void (*f)()); };
#define SX_HARNESS(name)                         \
  extern "C" void h_##name();                    \
  static SxReg sxreg_##name("h_" #name, h_##name); \
  extern "C" void h_##name()
#endif
#ifndef SX_THOROUGH
#define SX_THOROUGH 0
#endif
#define SX_TIER(q, t) (SX_THOROUGH ? (t) : (q))
static inline bool sx_bool(const char* n) { return sx_int(n, 0, 1) == 1; }
