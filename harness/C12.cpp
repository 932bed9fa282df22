//@ src: src/ndt/ndt_cell.cpp
//@ rt: eig_rt.cpp str_rt.cpp
//@ cxx: -DSX_MAX_TERM -include eig_model.h
//@ bound: axis: two cells of 6-8 points each, means on a parallel of any axis at any distance within +-20, one extent of each cell any in [0,3]
//@ bound: planar: two cells of 6 points, mean difference any vector of a coordinate plane within +-9, one extent any in [0,9]
//@ bound: partner: any pair of {fresh, too few points, Gaussian, Gaussian dropped by rays} cells; window: a cell of 6 points merged with itself 0-30 times
//@ assume: arithmetic is over the reals; Eigen's SelfAdjointEigenSolver returns an orthonormal ascending eigendecomposition (contract, replayed natively)
//@ harness: axis shards=4 budget=150 expect=points,mean,cov,inv,other
//@ harness: planar shards=8 budget=200 expect=points,mean,cov,inv
//@ harness: partner budget=60 expect=kept,copied,dropped
//@ harness: window budget=60 expect=window,window-mean
#include "cell_common.h"
static void merge(C& a, const C& b, int n1, int n2) {
  State s = state(a), t = state(b);
  sx_check(s.g && t.g && s.n == (size_t)n1 && t.n == (size_t)n2, "before");
  C& r = (a += b);
  sx_check(&r == &a, "ref");
  sx_check(a.hasGaussian(), "gauss");
  sx_check(a.points() == size_t(n1 + n2), "points");
  eqV(a.getMean(), pooledMean(s.mean, n1, t.mean, n2), "mean");
  M3 E = conditioned(pooledCov(s.cov, s.mean, n1, t.cov, t.mean, n2));
  eqM(a.getCov(), E, 1e-6, "cov");
  inverse(a, "inv");
  sx_eq(a.getOccupancyRaw(), 1, 1e-6, "occup");
  // the other cell is only read
  sameGaussian(b, t, "other");
  sx_check(b.hasGaussian(), "other");
}
SX_HARNESS(axis) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  int e1 = (int)sx_conc(sx_int("extra", 0, 2)); int e2 = (int)sx_conc(sx_int("extra", 0, 2));
  double dist = sx_real("dist", -20, 20);
  double s1 = sx_real("r", 0, 3); double s2 = sx_real("r", 0, 3);
  double r1[3] = {1, 2, 0.5}, r2[3] = {0.5, 1, 1.5};
  r1[ax] = s1; r2[(ax + 1) % 3] = s2;
  V3 m1(3, -2, 1), m2 = m1;
  m2(ax) += dist;
  C a = star(m1, r1, e1), b = star(m2, r2, e2);
  merge(a, b, 6 + e1, 6 + e2);
}
SX_HARNESS(planar) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  double u = sx_real("u", -9, 9); double v = sx_real("v", -9, 9);
  double rz = sx_real("rz", 0, 9);
  double r1[3] = {1, 2, 0.5}, r2[3] = {0.5, 1, 1.5};
  r1[ax] = rz;
  V3 m1(3, -2, 1), m2 = m1;
  m2((ax + 1) % 3) += u; m2((ax + 2) % 3) += v;
  C a = star(m1, r1, 0), b = star(m2, r2, 1);
  merge(a, b, 6, 7);
}
static C any(int k, double x) {
  double r[3] = {1, 2, 1};
  C c;
  if (k == 1) { for (int i = 0; i < 4; ++i) c.addPoint(V3(x, i, 0)); c.computeGaussian(); }
  if (k >= 2) c = star(V3(x, 2, 0), r, 0);
  if (k == 3) c.setOccupancy(-1), c.updateOccupancy(V3(x, 20, 0), V3(x, -20, 0), 1);
  return c;
}
SX_HARNESS(partner) {
  int ka = (int)sx_conc(sx_int("a", 0, 3)); int kb = (int)sx_conc(sx_int("b", 0, 3));
  double x = sx_real("x", -9, 9); double y = sx_real("y", -9, 9);
  C a = any(ka, x), b = any(kb, y);
  int oc = (int)sx_conc(sx_int("occ", -1, 1));
  a.setOccupancy(oc * 100);
  b.setOccupancy(40);
  State s = state(a), t = state(b);
  sx_check(s.g == (ka == 2) && t.g == (kb == 2), "kinds");
  a += b;
  if (kb != 2) {  // nothing to merge
    sx_check(a.hasGaussian() == s.g, "kept");
    sameGaussian(a, s, "kept");
    sx_eq(a.getOccupancyRaw(), s.o, 1e-9, "kept");
    eqV(a.getCentroid(), s.centroid, "kept");
  } else if (ka != 2) {
    sx_check(a.hasGaussian(), "copied");
    sameGaussian(a, t, "copied");
    sx_eq(a.getOccupancyRaw(), t.o, 1e-9, "copied");
  } else {
    sx_check(a.points() == 12, "both");
    double o = oc + 6 * 0.405465108; o = o > 1 ? 1 : o;
    sx_eq(a.getOccupancyRaw(), o, 1e-6, "both");
    sx_check(a.hasGaussian(), "dropped");
  }
}
SX_HARNESS(window) {
  int k = (int)sx_conc(sx_int("k", 0, 30));
  double x = sx_real("x", -9, 9);
  double r[3] = {1, 2, 1};
  C c = star(V3(x, 2, 0), r, 0);
  size_t n = 6;
  for (int i = 0; i < k; ++i) { c += c; n *= 2; if (n > 1000000000) n = 1000000000; }
  sx_check(c.points() == n, "window");
  eqV(c.getMean(), V3(x, 2, 0), "window-mean");
  sx_check(c.hasGaussian(), "window");
}
