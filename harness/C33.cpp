//@ bound: trial: lower end of the interval in [-8, 8], tried step any other within +-8 of it, function values within +-100, slopes within +-10, the other end of the interval anywhere within +-20; every one of the four cases in which the interpolating cubic and parabola of the rule exist (elsewhere the published rule gives no step)
//@ bound: between: interval [0, 1] or [0, -1] (the rules commute with shifting and scaling the step), every function value within +-100 and slope within +-10; safeguard: as trial, case three, also where the cubic has no minimiser
//@ bound: interval: every interval, tried step, function value and slope within +-100; aux: every value within +-100 and every mu in (0,1)
//@ assume: arithmetic is over the reals
//@ harness: trial shards=4 budget=90 expect=case1,case2,case3,case4
//@ harness: between shards=4 fto=300 cto=20000 budget=150 expect=inside1,inside2
//@ harness: safeguard budget=60 expect=safe
//@ harness: interval budget=60 expect=u1,u2,u3,done,lowest,bracket
//@ harness: aux budget=60 expect=psi,dpsi
#include "sx.h"
#include <algorithm>
#include <ndt_gslam/registration/ndt_reg_tools.h>
using namespace pcl::ndt_reg;
struct P { double a, f, g; };
static double cubic(const P& l, const P& t) {
  double z = 3 * (t.f - l.f) / (t.a - l.a) - t.g - l.g;
  double w = std::sqrt(z * z - t.g * l.g);
  if (t.a < l.a) w = -w;  // the root with positive curvature
  return l.a + (t.a - l.a) * (w - l.g - z) / (t.g - l.g + 2 * w);
}
// the radicand and the denominator of the interpolating cubic's minimiser
static bool hasCubic(const P& l, const P& t) {
  double z = 3 * (t.f - l.f) / (t.a - l.a) - t.g - l.g;
  double r = z * z - t.g * l.g;
  if (!(r > 1e-6)) return false;
  double d = t.g - l.g + 2 * (t.a < l.a ? -std::sqrt(r) : std::sqrt(r));
  return d > 1e-4 || d < -1e-4;
}
static P pt(double a, double flim, double glim) {
  P p; p.a = a; p.f = sx_real("f", -flim, flim); p.g = sx_real("g", -glim, glim); return p;
}
static double run(const P& l, const P& u, const P& t) { return trialValueSelectionMT(l.a, l.f, l.g, u.a, u.f, u.g, t.a, t.f, t.g); }
SX_HARNESS(trial) {
  int cs = (int)sx_conc(sx_int("case", 1, 4));
  double a = sx_real("a", -8, 8); double h = sx_real("h", -8, 8);
  sx_assume((h > 0.01) | (h < -0.01));
  P l = pt(a, 100, 10);
  P t = pt(a + h, 100, 10);
  bool dec = t.f <= l.f;
  double gg = t.g * l.g;
  if (cs == 1) {
    sx_assume(!dec);
    sx_assume(hasCubic(l, t));
    double den = l.g - (t.f - l.f) / h;
    sx_assume((den > 1e-3) | (den < -1e-3));
    double ac = cubic(l, t);
    // the minimiser of the parabola through f_l, g_l and f_t
    double aq = l.a + 0.5 * h * l.g / den;
    double got = run(l, l, t);
    double want = std::fabs(ac - l.a) < std::fabs(aq - l.a) ? ac : 0.5 * (ac + aq);
    sx_eq(got, want, 1e-6, "case1");
    return;
  }
  sx_assume(dec);
  if (cs == 2) {
    sx_assume(gg < -1e-6);
    sx_assume(hasCubic(l, t));
    double ac = cubic(l, t);
    double as = l.a + h * l.g / (l.g - t.g);
    double got = run(l, l, t);
    double want = std::fabs(ac - t.a) >= std::fabs(as - t.a) ? ac : as;
    sx_eq(got, want, 1e-6, "case2");
    return;
  }
  sx_assume(gg >= 0);
  double ua = sx_real("u", -20, 20);
  if (cs == 3) {
    P u = l; u.a = ua;
    sx_assume(std::fabs(t.g) <= std::fabs(l.g));
    sx_assume((l.g - t.g > 1e-3) | (l.g - t.g < -1e-3));
    sx_assume(hasCubic(l, t));
    double ac = cubic(l, t);
    double as = l.a + h * l.g / (l.g - t.g);
    double got = run(l, u, t);
    double next = std::fabs(ac - t.a) < std::fabs(as - t.a) ? ac : as;
    double lim = t.a + 0.66 * (ua - t.a);
    double want = h > 0 ? std::min(lim, next) : std::max(lim, next);
    sx_eq(got, want, 1e-6, "case3");
  } else {
    sx_assume(std::fabs(t.g) > std::fabs(l.g));
    sx_assume((ua - t.a > 0.01) | (ua - t.a < -0.01));
    P u = pt(ua, 100, 10);
    sx_assume(hasCubic(u, t));
    double got = run(l, u, t);
    double want = cubic(u, t);
    sx_eq(got, want, 1e-6, "case4");
  }
}
SX_HARNESS(between) {
  bool neg = sx_conc(sx_int("neg", 0, 1)) == 1; int cs = (int)sx_conc(sx_int("case", 1, 2));
  double gl = sx_real("gl", 0.01, 10); double gt = sx_real("gt", -10, 10); double df = sx_real("df", -100, 100);
  // descent at the lower end: towards the tried step
  P l = {0, 0, neg ? gl : -gl}, t = {neg ? -1.0 : 1.0, df, neg ? -gt : gt};
  if (cs == 1) sx_assume(df > 1e-3); else { sx_assume(df <= 0); sx_assume(gt > 1e-3); }
  double got = run(l, l, t);
  if (neg) got = -got;
  sx_check((got > 0) & (got < 1), cs == 1 ? "inside1" : "inside2");
}
SX_HARNESS(safeguard) {
  bool neg = sx_conc(sx_int("neg", 0, 1)) == 1;
  double a = sx_real("a", -8, 8); double h = sx_real("h", 0.01, 8); double ua = sx_real("u", -20, 20);
  double gl = sx_real("gl", -10, 10); double gt = sx_real("gt", -10, 10); double df = sx_real("df", -100, 0);
  if (neg) h = -h;
  sx_assume(gl * gt >= 0);
  sx_assume(std::fabs(gt) < std::fabs(gl) - 1e-3);
  P l = {a, 5, gl}, t = {a + h, 5 + df, gt}, u = {ua, 5, gl};
  // no cubic: its radicand is negative; the parabola through the slopes decides
  double z = 3 * df / h - gt - gl;
  sx_assume(z * z - gt * gl < -1e-6);
  double got = run(l, u, t);
  double as = l.a + h * l.g / (l.g - t.g);
  double lim = t.a + 0.66 * (ua - t.a);
  double want = h > 0 ? std::min(lim, as) : std::max(lim, as);
  sx_eq(got, want, 1e-6, "safe");
}
SX_HARNESS(interval) {
  P l = pt(sx_real("a", -100, 100), 100, 100);
  P u = pt(sx_real("a", -100, 100), 100, 100);
  P t = pt(sx_real("a", -100, 100), 100, 100);
  P l0 = l, u0 = u;
  bool conv = updateIntervalMT(l.a, l.f, l.g, u.a, u.f, u.g, t.a, t.f, t.g);
  double dir = t.g * (l0.a - t.a);
  int same = 0;
  P el = l0, eu = u0;
  if (t.f > l0.f) { eu = t; same = 1; }
  else if (dir > 0) { el = t; same = 2; }
  else if (dir < 0) { eu = l0; el = t; same = 3; }
  const char* lab = same == 1 ? "u1" : same == 2 ? "u2" : same == 3 ? "u3" : "done";
  sx_check(conv == (same == 0), lab);
  sx_check((l.a == el.a) & (l.f == el.f) & (l.g == el.g), lab);
  sx_check((u.a == eu.a) & (u.f == eu.f) & (u.g == eu.g), lab);
  // the lower end keeps the lowest value met
  sx_check((l.f <= l0.f) & ((same <= 1) | (l.f <= t.f)), "lowest");
  // a descent direction into the interval is kept
  double in0 = l0.g * (u0.a - l0.a);
  double ins = (t.a - l0.a) * (t.a - u0.a);
  if (!conv && in0 < 0 && ins < 0) {
    double in = l.g * (u.a - l.a);
    sx_check(in < 0, "bracket");
    sx_check((l.a == l0.a) | (l.a == t.a), "bracket");
    sx_check(std::fabs(u.a - l.a) < std::fabs(u0.a - l0.a), "bracket");
  }
}
SX_HARNESS(aux) {
  double a = sx_real("a", -100, 100); double fa = sx_real("fa", -100, 100); double f0 = sx_real("f0", -100, 100);
  double ga = sx_real("ga", -100, 100); double g0 = sx_real("g0", -100, 100); double mu = sx_real("mu", 0, 1);
  sx_eq(auxilaryFunction_PsiMT(a, fa, f0, g0, mu), fa - f0 - mu * g0 * a, 1e-9, "psi");
  sx_eq(auxilaryFunction_PsiMT(a, fa, f0, g0), fa - f0 - 1e-4 * g0 * a, 1e-9, "psi");
  sx_eq(auxilaryFunction_dPsiMT(ga, g0, mu), ga - mu * g0, 1e-9, "dpsi");
  sx_eq(auxilaryFunction_dPsiMT(ga, g0), ga - 1e-4 * g0, 1e-9, "dpsi");
  sx_eq(auxilaryFunction_PsiMT(0, f0, f0, g0, mu), 0, 1e-9, "psi");
}
