//@ src: src/ndt/ndt_cell.cpp
//@ rt: eig_rt.cpp str_rt.cpp
//@ cxx: -DSX_MAX_TERM -include eig_model.h
//@ bound: star: cells of 6-7 points with an axis aligned Gaussian (one extent any in [0,3]), mean within +-50; coupled: cells with a Gaussian coupled in a coordinate plane (one pair of points along any vector of the plane within +-9)
//@ bound: rotation by any angle about one of the axes, any translation within +-100 per coordinate; twice: two such transforms about the same axis; empty: cells without a Gaussian
//@ assume: arithmetic is over the reals; Eigen's SelfAdjointEigenSolver returns an orthonormal ascending eigendecomposition and the rotation of a rigid transform is its linear part (contracts, replayed natively)
//@ harness: star shards=4 budget=150 expect=mean,cov,inv,keep
//@ harness: coupled shards=8 budget=150 expect=mean,cov,inv,keep
//@ harness: twice shards=4 budget=150 expect=mean,cov
//@ harness: empty budget=60 expect=untouched
#include "cell_common.h"
typedef C::Transform T3;
static T3 transform(int ax, double a, const V3& t) {
  double s = std::sin(a), c = std::cos(a);
  T3 r = T3::Identity();
  int i = (ax + 1) % 3, j = (ax + 2) % 3;
  r.matrix()(i, i) = c; r.matrix()(i, j) = -s; r.matrix()(j, i) = s; r.matrix()(j, j) = c;
  for (int k = 0; k < 3; ++k) r.matrix()(k, 3) = t(k);
  return r;
}
static V3 apply(const T3& t, const V3& v) {
  V3 r;
  for (int i = 0; i < 3; ++i) { r(i) = t.matrix()(i, 3); for (int k = 0; k < 3; ++k) r(i) += t.matrix()(i, k) * v(k); }
  return r;
}
static M3 rotated(const T3& t, const M3& A) {
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double x = 0;
    for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) x += t.matrix()(i, k) * A(k, l) * t.matrix()(j, l);
    r(i, j) = x;
  }
  return r;
}
// the decomposition of the rotated covariance: eigenvectors turn, eigenvalues stay
static void hint(SxEig3& g, const T3& t, const M3& A) {
  Eigen::SelfAdjointEigenSolver<M3> es(A);
  M3 V; double d[3];
  for (int k = 0; k < 3; ++k) { d[k] = es.eigenvalues()(k); for (int i = 0; i < 3; ++i) V(i, k) = es.eigenvectors()(i, k); }
  for (int k = 0; k < 3; ++k) {
    g.d[k] = d[k];
    for (int i = 0; i < 3; ++i) { double x = 0; for (int l = 0; l < 3; ++l) x += t.matrix()(i, l) * V(l, k); g.V[i][k] = x; }
  }
}
static void moved(C& c, const T3& t) {
  State s = state(c);
  sx_check(s.g, "gauss");
  SxEig3 g;
  hint(g, t, s.cov);
  sx_eig3(&g);
  c.transform(t);
  sx_eig3(nullptr);
  sx_check(c.hasGaussian(), "gauss");
  eqV(c.getMean(), apply(t, s.mean), "mean");
  eqM(c.getCov(), rotated(t, s.cov), 1e-6, "cov");
  inverse(c, "inv");
  sx_check(c.points() == s.n, "keep");
  sx_eq(c.getOccupancyRaw(), s.o, 1e-9, "keep");
}
SX_HARNESS(star) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2)); int ra = (int)sx_conc(sx_int("raxis", 0, 2));
  int extra = (int)sx_conc(sx_int("extra", 0, 1));
  double a = sx_angle("a", -3.1, 3.1);
  V3 t = symVec(100, false), m = symVec(50, false);
  double v = sx_real("r", 0, 3);
  double r[3] = {1, 2, 0.5};
  r[ra] = v;
  C c = star(m, r, extra);
  c.setOccupancy(70);
  moved(c, transform(ax, a, t));
}
SX_HARNESS(coupled) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  double a = sx_angle("a", -3.1, 3.1);
  double u = sx_real("u", -9, 9); double v = sx_real("v", -9, 9);
  double r[3] = {1, 2, 0.5};
  V3 w(0, 0, 0); w((ax + 1) % 3) = u; w((ax + 2) % 3) = v;
  V3 m(3, -2, 1), t(1, -4, 2);
  C c;
  addStar(c, m, M3::Identity(), r, 0);
  c.addPoint(m + w); c.addPoint(m - w);
  c.computeGaussian();
  moved(c, transform(ax, a, t));
}
SX_HARNESS(twice) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  double a = sx_angle("a", -3.1, 3.1); double b = sx_angle("b", -3.1, 3.1);
  V3 t = symVec(100, false), m(3, -2, 1), u(1, 5, -4);
  double r[3] = {1, 2, 0.5};
  C c = star(m, r, 0);
  moved(c, transform(ax, a, t));
  moved(c, transform(ax, b, u));
}
SX_HARNESS(empty) {
  int k = (int)sx_conc(sx_int("kind", 0, 2));
  double x = sx_real("x", -50, 50); double a = sx_angle("a", -3.1, 3.1);
  V3 t = symVec(100, false);
  C c;
  c.setCentroid(V3(x, 1, 0));
  if (k >= 1) { c.addPoint(V3(x, 1, 0)); c.addPoint(V3(x, 2, 0)); }
  if (k == 2) { c.computeGaussian(); c.setMean(V3(x, x, 1)); }
  State s = state(c);
  c.transform(transform(2, a, t));
  sx_check(!c.hasGaussian(), "untouched");
  sameGaussian(c, s, "untouched");
  sx_eq(c.getOccupancyRaw(), s.o, 1e-9, "untouched");
  eqV(c.getCentroid(), s.centroid, "untouched");
}
