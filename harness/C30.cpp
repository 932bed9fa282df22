//@ rt: eig_rt.cpp
//@ bound: every symmetric 3x3 matrix V diag(d) V^T with V any rotation (three Euler angles) and eigenvalues |d| <= 1e4, ascending
//@ bound: rotated harness: rotation about one of the axes; diagonal harness: V = permutation-free identity
//@ assume: arithmetic is over the reals; Eigen's SelfAdjointEigenSolver returns an orthonormal ascending eigendecomposition (contract, replayed natively)
//@ harness: rotated budget=150 expect=ok,adj,inv
//@ harness: diagonal budget=100 expect=ok,adj,inv,rejected
//@ harness: general budget=200 tier=thorough expect=ok,adj,inv
#include "eig_model.h"
#include <ndt_gslam/utils/covariance_inverse.h>
using namespace Eigen;
static void decide(const Matrix3d& V, bool full) {
  double d[3];
  for (int i = 0; i < 3; ++i) d[i] = sx_real("d", -1e4, 1e4);
  sx_assume(d[0] <= d[1] && d[1] <= d[2]);
  SxEig3 g;
  Matrix3d A;
  for (int i = 0; i < 3; ++i) { g.d[i] = d[i]; for (int j = 0; j < 3; ++j) g.V[i][j] = V(i, j); }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = 0; for (int k = 0; k < 3; ++k) v += V(i, k) * d[k] * V(j, k); A(i, j) = v; }
  sx_eig3(&g);
  Matrix3d adj = Matrix3d::Constant(7), inv = Matrix3d::Constant(7);
  sx_assume(d[0] + d[1] + d[2] > 1e-3 || d[0] + d[1] + d[2] < -1e-3);
  bool ok = slamuk::covarInverse<double>(A, adj, inv);
  if (d[0] + d[1] + d[2] < 0) {  // not a covariance
    sx_check(!ok, "rejected");
    return;
  }
  sx_check(ok, "ok");
  double e[3];  // eigenvalues lifted to at least a hundredth of the largest
  for (int k = 0; k < 3; ++k) e[k] = d[2] > d[k] * 100 ? d[2] / 100 : d[k];
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double x = 0, y = 0;
    for (int k = 0; k < 3; ++k) { x += V(i, k) * e[k] * V(j, k); y += V(i, k) * (1 / e[k]) * V(j, k); }
    sx_eq(adj(i, j), x, 1e-6, "adj");
    sx_eq(inv(i, j), y, 1e-6, "inv");
  }
  if (full) return;
  Matrix3d P = adj * inv;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sx_eq(P(i, j), i == j, 1e-6, "product");
}
static Matrix3d rotAxis(int ax, double a) {
  double s = std::sin(a), c = std::cos(a);
  Matrix3d R = Matrix3d::Identity();
  int i = (ax + 1) % 3, j = (ax + 2) % 3;
  R(i, i) = c; R(i, j) = -s; R(j, i) = s; R(j, j) = c;
  return R;
}
SX_HARNESS(diagonal) { decide(Matrix3d::Identity(), false); }
SX_HARNESS(rotated) { int ax = (int)sx_conc(sx_int("axis", 0, 2)); double a = sx_angle("a", -3.1, 3.1); decide(rotAxis(ax, a), true); }
SX_HARNESS(general) {
  double a = sx_angle("a", -3.1, 3.1), b = sx_angle("b", -3.1, 3.1), c = sx_angle("c", -3.1, 3.1);
  Matrix3d A = rotAxis(2, a), B = rotAxis(0, b), C = rotAxis(2, c), R;
  R = A * B * C;
  decide(R, true);
}
