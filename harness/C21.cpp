//@ bound: translations |x|,|y| <= 1e4 (reals), headings in [-pi, pi]; scalar types double->double, float->double and double->float
//@ assume: arithmetic is over the reals; sin/cos enter as points of the unit circle tied by the addition theorems
//@ assume: Eigen's SVD-based rotation() returns the rotation closest to the linear part (contract, replayed natively)
//@ harness: to4 budget=60 expect=t4
//@ harness: from4 budget=60 expect=f4
//@ harness: round4 budget=60 expect=r4
//@ harness: vecmat budget=60 expect=v2,v3,mv2,mv3
//@ harness: mixed budget=60 expect=mx2,mx3
#include "pose_common.h"
static void eq4(const Eigen::Matrix4d& m, const Pose& p, const char* l) {
  double s = std::sin(p(2)), c = std::cos(p(2));
  double e[4][4] = {{c, -s, 0, p(0)}, {s, c, 0, p(1)}, {0, 0, 1, 0}, {0, 0, 0, 1}};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) sx_eq(m(i, j), e[i][j], TOL, l);
}
SX_HARNESS(to4) { Pose p = symPose("p", 3.1415); eq4(convertFromTransform(getTransFromPose(p)), p, "t4"); }
SX_HARNESS(from4) {
  Pose p = symPose("p", 10);
  double s = std::sin(p(2)), c = std::cos(p(2));
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m(0, 0) = c; m(0, 1) = -s; m(1, 0) = s; m(1, 1) = c; m(0, 3) = p(0); m(1, 3) = p(1);
  m(2, 3) = sx_real("z", -100, 100);  // height is dropped
  Tr t = convertToTransform(m);
  eqTr(t, p, "f4");
  sx_check(t.matrix()(2, 0) == 0 && t.matrix()(2, 1) == 0 && t.matrix()(2, 2) == 1, "f4-last");
}
SX_HARNESS(round4) {
  Pose p = symPose("p", 3.1415);
  eqTr(convertToTransform(convertFromTransform(getTransFromPose(p))), p, "r4");
}
SX_HARNESS(vecmat) {
  Pose p = symPose("p", 3.1415);
  Eigen::Matrix3d m2 = vecToMat2d<double>(p);
  Eigen::Matrix4d m3 = vecToMat3d<double>(p);
  Tr t; t.matrix() = m2;
  eqTr(t, p, "v2");
  sx_check(m2(2, 0) == 0 && m2(2, 1) == 0 && m2(2, 2) == 1, "v2-last");
  eq4(m3, p, "v3");
  Pose b2 = ::matToVec2d<double>(m2), b3 = ::matToVec2d<double>(m3);
  for (int i = 0; i < 3; ++i) { sx_eq(b2(i), p(i), TOL, "mv2"); sx_eq(b3(i), p(i), TOL, "mv3"); }
}
SX_HARNESS(mixed) {
  Eigen::Vector3f p; p << (float)sx_fix("x", -4000, 4000, -3), (float)sx_fix("y", -4000, 4000, -3), (float)sx_angle("a", -3.1, 3.1);
  Eigen::Matrix3d m2 = vecToMat2d<float, double>(p);
  Eigen::Matrix4d m3 = vecToMat3d<float, double>(p);
  double s = std::sin((double)p(2)), c = std::cos((double)p(2));
  double e[2][3] = {{c, -s, p(0)}, {s, c, p(1)}};
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) {
    sx_eq(m2(i, j), e[i][j], 1e-3, "mx2"); sx_eq(m3(i, j == 2 ? 3 : j), e[i][j], 1e-3, "mx3");
  }
  Eigen::Vector3f b = ::matToVec2d<double, float>(m2), b3 = ::matToVec2d<double, float>(m3);
  for (int i = 0; i < 3; ++i) { sx_eq(b(i), p(i), 1e-3, "mxb2"); sx_eq(b3(i), p(i), 1e-3, "mxb3"); }
}
