//@ bound: translations |x|,|y| <= 1e4 (reals), headings in [-10, 10] (wrapped and unwrapped)
//@ assume: arithmetic is over the reals; sin/cos enter as points of the unit circle tied by the addition theorems
//@ assume: Eigen's SVD-based rotation() returns the rotation closest to the linear part (contract, replayed natively)
//@ harness: cycle budget=60 expect=cy-x,cy-y,cy-sin,cy-range
//@ harness: between budget=60 expect=bt
//@ harness: frames budget=60 expect=fr
//@ harness: concat budget=60 expect=cc-x,cc-sin,cc-range
#include "pose_common.h"
SX_HARNESS(cycle) {  // moving 'from' by the transform between the poses gives 'to'
  Pose a = symPose("a", 10), b = symPose("b", 10);
  Pose c = transformPose(a, transBtwPoses(a, b));
  sx_eq(c(0), b(0), TOL, "cy-x"); sx_eq(c(1), b(1), TOL, "cy-y");
  eqAngle(c(2), b(2), "cy-sin", "cy-cos");
  sx_check(c(2) <= M_PI + 1e-9 && c(2) >= -M_PI - 1e-9, "cy-range");
}
SX_HARNESS(between) {
  Pose a = symPose("a", 10), b = symPose("b", 10);
  Pose d; d << b(0) - a(0), b(1) - a(1), b(2) - a(2);
  eqTr(transBtwPoses(a, b), d, "bt");
  // incremental move adds the increment's translation and heading
  Pose t = symPose("t", 3);
  Pose r = transformPose(a, getTransFromPose(t));
  sx_eq(r(0), a(0) + t(0), TOL, "tp-x"); sx_eq(r(1), a(1) + t(1), TOL, "tp-y");
  eqAngle(r(2), a(2) + t(2), "tp-sin", "tp-cos");
  sx_check(r(2) <= M_PI + 1e-9 && r(2) >= -M_PI - 1e-9, "tp-range");
}
SX_HARNESS(frames) {  // the frame change takes coordinates in 'from' to coordinates in 'to'
  Pose a = symPose("a", 10), b = symPose("b", 10);
  Tr f = transBtwFrames(a, b);
  double x = sx_real("x", -1e3, 1e3), y = sx_real("y", -1e3, 1e3);
  Eigen::Vector2d q = f * Eigen::Vector2d(x, y);
  double sa = std::sin(a(2)), ca = std::cos(a(2)), sb = std::sin(b(2)), cb = std::cos(b(2));
  sx_eq(b(0) + cb * q(0) - sb * q(1), a(0) + ca * x - sa * y, TOL, "fr");
  sx_eq(b(1) + sb * q(0) + cb * q(1), a(1) + sa * x + ca * y, TOL, "fr");
}
SX_HARNESS(concat) {
  Pose a = symPose("a", 10), b = symPose("b", 10);
  Pose r = transformConcat(a, getTransFromPose(b)), e = compose(a, b);
  sx_eq(r(0), e(0), TOL, "cc-x"); sx_eq(r(1), e(1), TOL, "cc-y");
  eqAngle(r(2), e(2), "cc-sin", "cc-cos");
  sx_check(r(2) <= M_PI + 1e-9 && r(2) >= -M_PI - 1e-9, "cc-range");
}
