//@ bound: covariance entries |v| <= 1e4, translations |x|,|y| <= 1e3 (reals), heading in [-pi, pi]; chains of 2 concatenations
//@ assume: arithmetic is over the reals; sin/cos enter as points of the unit circle tied by the addition theorems
//@ assume: Eigen's SVD-based rotation() returns the rotation closest to the linear part (contract, replayed natively)
//@ harness: concat budget=100 expect=cv
//@ harness: sym budget=100 expect=cv-sym
//@ harness: ident budget=60 expect=cv-id,cv-zero
#include "pose_common.h"
#include <ndt_gslam/utils/covariance_wrapper.h>
using slamuk::CovarianceWrapper;
static Eigen::Matrix3d symMat(const char* n, bool sym) {
  Eigen::Matrix3d m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { if (sym && j < i) m(i, j) = m(j, i); else m(i, j) = sx_real(n, -1e4, 1e4); }
  return m;
}
SX_HARNESS(concat) {  // J1 C J1^T + J2 O J2^T with the Jacobians of pose composition
  Eigen::Matrix3d C = symMat("C", true), O = symMat("O", true);
  Pose t = symPose("t", 3.1415, 1e3);
  CovarianceWrapper w(C);
  w.addToCovar(O, getTransFromPose(t));
  double s = std::sin(t(2)), c = std::cos(t(2));
  double J1[3][3] = {{1, 0, -s * t(0) - c * t(1)}, {0, 1, c * t(0) - s * t(1)}, {0, 0, 1}}, J2[3][3] = {{c, -s, 0}, {s, c, 0}, {0, 0, 1}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double e = 0;
    for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) e += J1[i][k] * C(k, l) * J1[j][l] + J2[i][k] * O(k, l) * J2[j][l];
    sx_eq(w.covar_(i, j), e, TOL, "cv");
  }
}
SX_HARNESS(sym) {  // symmetric in, symmetric out, also along a chain
  CovarianceWrapper w(symMat("C", true));
  for (int k = 0; k < 2; ++k) { Eigen::Matrix3d O = symMat("O", true); Pose t = symPose("t", 3.1415, 1e3); w.addToCovar(O, getTransFromPose(t)); }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) sx_eq(w.covar_(i, j), w.covar_(j, i), TOL, "cv-sym");
}
SX_HARNESS(ident) {
  Eigen::Matrix3d C = symMat("C", true);
  CovarianceWrapper w(C), d;
  Tr id = Tr::Identity();
  w.addToCovar(Eigen::Matrix3d::Zero(), id);
  d.addToCovar(C, id);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { sx_eq(w.covar_(i, j), C(i, j), TOL, "cv-id"); sx_eq(d.covar_(i, j), C(i, j) + (i == j), TOL, "cv-zero"); }
}
