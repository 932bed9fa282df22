//@ bound: sums of up to 4 (quick) / 6 (thorough) scores of dimension 3 (double) and 6 (float), every entry within +-1e6; outlier ratios in [0.01, 0.99], resolutions in [0.1, 20]
//@ assume: arithmetic is over the reals; exp and log are inverse to each other and monotone
//@ harness: sum budget=60 expect=value,gradient,hessian,operands
//@ harness: zero budget=30 expect=zero
//@ harness: fit budget=60 expect=at-0,at-1,half
#include "sx.h"
#include <algorithm>
#include <ndt_gslam/registration/ndt_reg_tools.h>
using namespace pcl::ndt_reg;
template <unsigned N, typename T> static ScoreAndDerivatives<N, T> any() {
  ScoreAndDerivatives<N, T> s;
  s.value_ = (T)sx_real("v", -1e6, 1e6);
  for (unsigned i = 0; i < N; ++i) s.gradient_(i) = (T)sx_real("g", -1e6, 1e6);
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) s.hessian_(i, j) = (T)sx_real("h", -1e6, 1e6);
  return s;
}
template <unsigned N, typename T> static void sums(int n) {
  const double tol = sizeof(T) == 4 ? 1 : 1e-3;
  typedef ScoreAndDerivatives<N, T> S;
  S acc;
  S first = any<N, T>(), keep = first;
  double v = first.value_, g[N], h[N][N];
  for (unsigned i = 0; i < N; ++i) { g[i] = first.gradient_(i); for (unsigned j = 0; j < N; ++j) h[i][j] = first.hessian_(i, j); }
  S& r = (acc += first);
  sx_check(&r == &acc, "ref");
  for (int k = 1; k < n; ++k) {
    S x = any<N, T>(), y = x;
    v += x.value_;
    for (unsigned i = 0; i < N; ++i) { g[i] += x.gradient_(i); for (unsigned j = 0; j < N; ++j) h[i][j] += x.hessian_(i, j); }
    if (k % 2) acc = acc + x; else acc += x;
    sx_check(x.value_ == y.value_ && x.gradient_ == y.gradient_ && x.hessian_ == y.hessian_, "operands");
  }
  if (n > 1) { S d = first + first; sx_eq(d.value_, 2 * double(keep.value_), tol, "value"); }
  sx_check(first.value_ == keep.value_ && first.gradient_ == keep.gradient_ && first.hessian_ == keep.hessian_, "operands");
  sx_eq(acc.value_, v, tol, "value");
  for (unsigned i = 0; i < N; ++i) {
    sx_eq(acc.gradient_(i), g[i], tol, "gradient");
    for (unsigned j = 0; j < N; ++j) sx_eq(acc.hessian_(i, j), h[i][j], tol, "hessian");
  }
}
SX_HARNESS(sum) {
  int n = (int)sx_conc(sx_int("n", 1, SX_TIER(4, 6)));
  if (sx_int("dim", 0, 1) == 1) sums<6, float>(n); else sums<3, double>(n);
}
template <unsigned N, typename T> static void isZero(const ScoreAndDerivatives<N, T>& s) {
  sx_check(s.value_ == 0, "zero");
  for (unsigned i = 0; i < N; ++i) { sx_check(s.gradient_(i) == 0, "zero"); for (unsigned j = 0; j < N; ++j) sx_check(s.hessian_(i, j) == 0, "zero"); }
}
static void isZero(const JacobianHessianDerivatives& d) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sx_check(d.Jest(i, j) == 0, "zero");
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 3; ++j) sx_check(d.Hest(i, j) == 0 && d.Zest(j, i) == 0, "zero");
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) sx_check(d.ZHest(i, j) == 0, "zero");
}
SX_HARNESS(zero) {
  ScoreAndDerivatives<3, double> a;
  isZero(a);
  isZero(ScoreAndDerivatives<3, double>::Zero());
  ScoreAndDerivatives<6, float> b;
  isZero(b);
  isZero(ScoreAndDerivatives<6, float>::Zero());
  JacobianHessianDerivatives d;
  isZero(d);
  double x = sx_real("x", -9, 9);
  d.Jest.setConstant(x); d.Hest.setConstant(x); d.Zest.setConstant(x); d.ZHest.setConstant(x);
  d.setZero();
  isZero(d);
  isZero(JacobianHessianDerivatives::Zero());
}
// [Magnusson 2009, eq. 6.8]: -log(c1 exp(-x^2/2) + c2) and its Gaussian
// approximation d1 exp(-d2 x^2/2) + d3 agree at x = 0, x = 1 and infinity
SX_HARNESS(fit) {
  double o = sx_real("outliers", 0.01, 0.99); double r = sx_real("resolution", 0.1, 20);
  FittingParams p(o, r);
  double c1 = 10 * (1 - o), c2 = o / (r * r);
  double d3 = -std::log(c2);
  double at0 = -std::log(c1 + c2);
  sx_eq(p.gauss_d1_ + d3, at0, 1e-6, "at-0");
  double e1 = std::exp(-0.5);
  double at1 = -std::log(c1 * e1 + c2);
  double e2 = std::exp(-p.gauss_d2_ / 2);
  sx_eq(p.gauss_d1_ * e2 + d3, at1, 1e-6, "at-1");
  sx_eq(p.gauss_d2__half_ * 2, p.gauss_d2_, 1e-9, "half");
}
