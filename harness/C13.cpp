//@ src: src/ndt/ndt_cell.cpp
//@ rt: eig_rt.cpp str_rt.cpp
//@ cxx: -DSX_MAX_TERM -include eig_model.h
//@ bound: star: 6-8 points, three pairs m +- r e_k with any r in [0,3], the rest at m, m within +-50 in every coordinate
//@ bound: coupled: three axis pairs (one extent any in [0,9]) and one pair m +- w, w any vector of a coordinate plane within +-9, around a fixed m
//@ bound: few: 0-5 points after an empty cell or a cell with a Gaussian
//@ assume: arithmetic is over the reals; Eigen's SelfAdjointEigenSolver returns an orthonormal ascending eigendecomposition (contract, replayed natively)
//@ harness: star budget=150 expect=mean,cov,gauss,inv
//@ harness: coupled shards=8 budget=200 expect=mean,cov,inv
//@ bound: batch: 6-8 points around one mean, then 6-7 points around another one on the same axis parallel (any distance within +-20), spread of one axis of each batch any in [0,3]
//@ harness: batch shards=4 budget=150 expect=batch-points,batch-mean,batch-cov,inv
//@ harness: few budget=60 expect=few-gauss,few-points
#include "cell_common.h"
static void expectStar(const C& c, int n, const V3& m, const M3& V, const double* r) {
  sx_check(c.hasGaussian(), "gauss");
  sx_check(c.points() == (size_t)n, "points");
  eqV(c.getMean(), m, "mean");
  double d[3], mx;
  for (int k = 0; k < 3; ++k) d[k] = starEig(r[k], n);
  mx = d[0] > d[1] ? d[0] : d[1]; mx = mx > d[2] ? mx : d[2];
  for (int k = 0; k < 3; ++k) d[k] = d[k] * 100 < mx ? mx / 100 : d[k];
  M3 E;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = 0; for (int k = 0; k < 3; ++k) v += V(i, k) * d[k] * V(j, k); E(i, j) = v; }
  eqM(c.getCov(), E, 1e-6, "cov");
  inverse(c, "inv");
}
SX_HARNESS(star) {
  int extra = (int)sx_conc(sx_int("extra", 0, 2));
  V3 m = symVec(50, false);
  double r[3];
  for (int k = 0; k < 3; ++k) r[k] = sx_real("r", 0, 3);
  C c = star(m, r, extra);
  expectStar(c, 6 + extra, m, M3::Identity(), r);
  // points are used once: nothing left for a second computation
  c.computeGaussian();
  sx_check(c.points() == 0, "emptied");
}
// one pair m +- w of arbitrary direction makes a coupled covariance
static M3 pairCov(const V3& w, const double* r, int n) {
  M3 A;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A(i, j) = ((i == j ? 1 + 2 * r[i] * r[i] : 0) + 2 * w(i) * w(j)) / n * norm(n);
  return A;
}
SX_HARNESS(coupled) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  double u = sx_real("u", -9, 9); double v = sx_real("v", -9, 9);
  double rz = sx_real("rz", 0, 9);
  double r[3] = {1, 2, 0.5};
  r[ax] = rz;
  V3 w(0, 0, 0); w((ax + 1) % 3) = u; w((ax + 2) % 3) = v;
  V3 m(3, -2, 1);
  C c;
  addStar(c, m, M3::Identity(), r, 0);
  c.addPoint(m + w); c.addPoint(m - w);
  c.computeGaussian();
  sx_check(c.hasGaussian() && c.points() == 8, "gauss");
  eqV(c.getMean(), m, "mean");
  M3 E = conditioned(pairCov(w, r, 8));
  eqM(c.getCov(), E, 1e-6, "cov");
  inverse(c, "inv");
}
SX_HARNESS(batch) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  int e1 = (int)sx_conc(sx_int("extra", 0, 2)); int e2 = (int)sx_conc(sx_int("extra", 0, 1));
  double dist = sx_real("dist", -20, 20);
  double s1 = sx_real("r", 0, 3); double s2 = sx_real("r", 0, 3);
  double r1[3] = {1, 2, 0.5}, r2[3] = {0.5, 1, 1.5};
  r1[ax] = s1; r2[(ax + 1) % 3] = s2;
  V3 m1(3, -2, 1), m2 = m1;
  m2(ax) += dist;
  C c = star(m1, r1, e1);
  M3 A = c.getCov(), B = M3::Zero();
  addStar(c, m2, M3::Identity(), r2, e2);
  c.computeGaussian();
  int n1 = 6 + e1, n2 = 6 + e2;
  sx_check(c.hasGaussian(), "gauss");
  sx_check(c.points() == size_t(n1 + n2), "batch-points");
  eqV(c.getMean(), pooledMean(m1, n1, m2, n2), "batch-mean");
  for (int k = 0; k < 3; ++k) B(k, k) = starEig(r2[k], n2);
  M3 E = conditioned(pooledCov(A, m1, n1, B, m2, n2));
  eqM(c.getCov(), E, 1e-6, "batch-cov");
  inverse(c, "inv");
}
SX_HARNESS(few) {
  int n = (int)sx_conc(sx_int("n", 0, 5));
  C c;
  if (sx_bool("after")) {
    double r[3] = {1, 2, 1};
    c = star(V3(1, 2, 0), r, 0);
    sx_check(c.hasGaussian(), "before");
  }
  for (int i = 0; i < n; ++i) { double x = sx_real("x", -50, 50); c.addPoint(V3(x, 1, 0)); }
  c.computeGaussian();
  sx_check(!c.hasGaussian(), "few-gauss");
  sx_check(c.points() == (size_t)n, "few-points");
}
