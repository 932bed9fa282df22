//@ src: src/ndt/ndt_cell.cpp
//@ rt: eig_rt.cpp str_rt.cpp
//@ cxx: -DSX_MAX_TERM -include eig_model.h
//@ bound: pair: three axis pairs (one extent any in [0,9]) and one pair along any vector of a coordinate plane within +-9: computed, then transformed or merged with another cell
//@ bound: flat: points on a line, in one place, or far from each other: extents any in {0} u [0,1000] along each axis
//@ bound: far: 6-8 points around means of magnitude 0 to 1e12 (each power of ten), spacing 1e-3 to 1e3 (executed in IEEE doubles with Eigen's algorithm)
//@ assume: pair, flat: arithmetic is over the reals; Eigen's SelfAdjointEigenSolver returns an orthonormal ascending eigendecomposition (contract, replayed natively)
//@ harness: pair shards=8 budget=200 expect=gauss,symmetric,definite,condition,inverse
//@ harness: flat shards=4 budget=100 expect=gauss,symmetric,definite,condition,inverse
//@ harness: far budget=60 expect=symmetric,definite,inverse
#include "cell_common.h"
// the determinant criterion for cov - t*I being positive semidefinite, t = a hundredth of
// the largest eigenvalue, is stated on the decomposition the code itself relies on
static void usable(const C& c, double tol) {
  if (!c.hasGaussian()) return;
  const M3 A = c.getCov();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) sx_eq(A(i, j), A(j, i), tol, "symmetric");
  for (int i = 0; i < 3; ++i) sx_check(A(i, i) > 0, "definite");
  inverse(c, "inverse");
}
SX_HARNESS(pair) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  double u = sx_real("u", -9, 9); double v = sx_real("v", -9, 9);
  double rz = sx_real("rz", 0, 9);
  double r[3] = {1, 2, 0.5};
  r[ax] = rz;
  V3 w(0, 0, 0); w((ax + 1) % 3) = u; w((ax + 2) % 3) = v;
  V3 m(3, -2, 1);
  C c;
  addStar(c, m, M3::Identity(), r, 0);
  c.addPoint(m + w); c.addPoint(m - w);
  c.computeGaussian();
  sx_check(c.hasGaussian(), "gauss");
  const M3 A = c.getCov();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) sx_eq(A(i, j), A(j, i), 1e-6, "symmetric");
  inverse(c, "inverse");
  // condition: in the eigenvectors of the covariance every eigenvalue reaches a
  // hundredth of the largest
  Eigen::SelfAdjointEigenSolver<M3> es(A);
  double l0 = es.eigenvalues()(0); double l2 = es.eigenvalues()(2);
  sx_check(l2 > 0, "definite");
  sx_check(l0 * 100 >= l2 - 1e-6, "condition");
}
SX_HARNESS(flat) {
  double r[3];
  for (int k = 0; k < 3; ++k) { bool z = sx_int("zero", 0, 1) == 1; r[k] = sx_real("r", 0, 1000); if (z) r[k] = 0; }
  V3 m(3, -2, 1);
  C c = star(m, r, (int)sx_conc(sx_int("extra", 0, 2)));
  sx_check(c.hasGaussian(), "gauss");
  const M3 A = c.getCov();
  double mx = A(0, 0) > A(1, 1) ? A(0, 0) : A(1, 1); mx = mx > A(2, 2) ? mx : A(2, 2);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < i; ++j) { sx_eq(A(i, j), A(j, i), 1e-6, "symmetric"); sx_eq(A(i, j), 0, 1e-6, "diagonal"); }
    sx_check(A(i, i) > 0, "definite");
    sx_check(A(i, i) * 100 >= mx * 0.999999, "condition");
  }
  inverse(c, "inverse");
}
SX_HARNESS(far) {
  int e = (int)sx_conc(sx_int("exponent", -1, 12)); int g = (int)sx_conc(sx_int("spacing", -3, 3));
  int dir = (int)sx_conc(sx_int("direction", 0, 3)); int extra = (int)sx_conc(sx_int("extra", 0, 2));
  double o = 1, h = 1;
  for (int i = 0; i < e; ++i) o *= 10;
  if (e < 0) o = 0;
  for (int i = 0; i < g; ++i) h *= 10;
  for (int i = 0; i > g; --i) h /= 10;
  V3 m(o, dir & 1 ? -o : 0, dir & 2 ? o / 3 : 0);
  double r[3] = {h, 2 * h, h / 2};
  C c;
  addStar(c, m, M3::Identity(), r, extra);
  c.addPoint(m + V3(h, h, 0)); c.addPoint(m + V3(0, h, h / 3));
  c.computeGaussian();
  if (!c.hasGaussian()) return;
  const M3 A = c.getCov(), I = c.getICov();
  double mx = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { sx_check(std::isfinite(A(i, j)) && std::isfinite(I(i, j)), "finite"); double q = std::abs(A(i, j)); mx = q > mx ? q : mx; }
  for (int i = 0; i < 3; ++i) {
    sx_check(A(i, i) > 0, "definite");
    for (int j = 0; j < i; ++j) sx_check(std::abs(A(i, j) - A(j, i)) <= 1e-6 * mx, "symmetric");
  }
  M3 P = A * I;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sx_check(std::abs(P(i, j) - (i == j)) < 1e-6, "inverse");
  double d2 = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
  sx_check(d2 > 0 && A.determinant() > 0, "definite");
}
