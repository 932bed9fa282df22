//@ bound: translations |x|,|y| <= 1e4 (reals), heading in [-pi, pi] and, for the unwrapped cases, [-20, 20]; scalar types double and float
//@ assume: arithmetic is over the reals; sin/cos enter as points of the unit circle tied by the addition theorems
//@ assume: Eigen's SVD-based rotation() returns the rotation closest to the linear part (contract, replayed natively)
//@ harness: roundtrip budget=60 expect=rt-x,rt-y,rt-angle
//@ harness: unwrapped budget=60 expect=uw-range,uw-sin,uw-cos
//@ harness: matrix budget=60 expect=m-00,m-tx
//@ harness: act budget=60 expect=act-x,act-y
//@ harness: extract budget=60 expect=ex-angle,ex-disp
//@ harness: floats budget=60 expect=f-x,f-angle
#include "sx.h"
#include <ndt_gslam/utils/eigen_tools.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
using namespace eigt;
typedef pose2d_t<double> Pose;
typedef transform2d_t<double> Tr;
static Pose pose(const char* n, double amax) {
  Pose p; p << sx_real(n, -1e4, 1e4), sx_real(n, -1e4, 1e4), sx_angle(n, -amax, amax);
  return p;
}
static const double TOL = 1e-6;
SX_HARNESS(roundtrip) {
  Pose p = pose("p", M_PI);
  sx_assume(p(2) > -M_PI);
  Pose q = sx_bool("policy") ? Slam2d_Policy::transMatToVec(Slam2d_Policy::vecToTransMat(p)) : getPoseFromTransform(getTransFromPose(p));
  sx_eq(q(0), p(0), TOL, "rt-x");
  sx_eq(q(1), p(1), TOL, "rt-y");
  sx_eq(q(2), p(2), TOL, "rt-angle");
}
SX_HARNESS(unwrapped) {
  Pose p = pose("p", 20);
  Tr t = getTransFromPose(p);
  Pose q = getPoseFromTransform(t);
  sx_eq(q(0), p(0), TOL, "uw-x");
  sx_eq(q(1), p(1), TOL, "uw-y");
  sx_check(q(2) <= M_PI + 1e-9 && q(2) >= -M_PI - 1e-9, "uw-range");
  sx_eq(std::sin(q(2)), std::sin(p(2)), TOL, "uw-sin");
  sx_eq(std::cos(q(2)), std::cos(p(2)), TOL, "uw-cos");
  Tr u = getTransFromPose(q);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) sx_eq(u.matrix()(i, j), t.matrix()(i, j), TOL, "uw-matrix");
}
SX_HARNESS(matrix) {
  Pose p = pose("p", 20);
  double s = std::sin(p(2)), c = std::cos(p(2));
  Tr t = sx_bool("policy") ? Slam2d_Policy::vecToTransMat(p) : getTransFromPose(p);
  const Eigen::Matrix3d m = t.matrix();
  sx_eq(m(0, 0), c, TOL, "m-00"); sx_eq(m(0, 1), -s, TOL, "m-01"); sx_eq(m(1, 0), s, TOL, "m-10"); sx_eq(m(1, 1), c, TOL, "m-11");
  sx_eq(m(0, 2), p(0), TOL, "m-tx"); sx_eq(m(1, 2), p(1), TOL, "m-ty");
  sx_check(m(2, 0) == 0 && m(2, 1) == 0 && m(2, 2) == 1, "m-last-row");
}
SX_HARNESS(act) {
  Pose p = pose("p", 20);
  double x = sx_real("x", -1e4, 1e4), y = sx_real("y", -1e4, 1e4);
  Eigen::Vector2d v = getTransFromPose(p) * Eigen::Vector2d(x, y);
  double s = std::sin(p(2)), c = std::cos(p(2));
  sx_eq(v(0), c * x - s * y + p(0), TOL, "act-x");
  sx_eq(v(1), s * x + c * y + p(1), TOL, "act-y");
  // composing with a transform and applying = applying twice
  Pose q = pose("q", 20);
  Eigen::Vector2d w = (getTransFromPose(q) * getTransFromPose(p)) * Eigen::Vector2d(x, y), z = getTransFromPose(q) * v;
  sx_eq(w(0), z(0), TOL, "act-comp-x");
  sx_eq(w(1), z(1), TOL, "act-comp-y");
}
SX_HARNESS(extract) {
  Pose p = pose("p", M_PI);
  sx_assume(p(2) > -M_PI);
  Tr t = getTransFromPose(p);
  sx_eq(getAngle(t), p(2), TOL, "ex-angle");
  double d = getDisplacement(t);
  sx_check(d >= 0, "ex-disp-sign");
  sx_eq(d * d, p(0) * p(0) + p(1) * p(1), TOL, "ex-disp");
}
SX_HARNESS(floats) {
  pose2d_t<float> p; p << (float)sx_fix("x", -1000, 1000, -2), (float)sx_fix("y", -1000, 1000, -2), (float)sx_angle("a", -3.1, 3.1);
  pose2d_t<float> q = getPoseFromTransform<float>(getTransFromPose<float>(p));
  sx_eq(q(0), p(0), 1e-4, "f-x"); sx_eq(q(1), p(1), 1e-4, "f-y"); sx_eq(q(2), p(2), 1e-4, "f-angle");
}
