#pragma once
#include "sx.h"
#include <ndt_gslam/utils/eigen_tools.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
using namespace eigt;
typedef pose2d_t<double> Pose;
typedef transform2d_t<double> Tr;
static const double TOL = 1e-6;
static inline Pose symPose(const char* n, double amax, double tmax = 1e4) {
  Pose p; p << sx_real(n, -tmax, tmax), sx_real(n, -tmax, tmax), sx_angle(n, -amax, amax);
  return p;
}
// independent composition of planar poses
static inline Pose compose(const Pose& a, const Pose& b) {
  double s = std::sin(a(2)), c = std::cos(a(2));
  Pose r; r << a(0) + c * b(0) - s * b(1), a(1) + s * b(0) + c * b(1), a(2) + b(2);
  return r;
}
static inline void eqAngle(double a, double b, const char* l1, const char* l2) {
  sx_eq(std::sin(a), std::sin(b), TOL, l1);
  sx_eq(std::cos(a), std::cos(b), TOL, l2);
}
static inline void eqTr(const Tr& a, const Pose& p, const char* l) {
  double s = std::sin(p(2)), c = std::cos(p(2));
  const Eigen::Matrix3d m = a.matrix();
  sx_eq(m(0, 0), c, TOL, l); sx_eq(m(0, 1), -s, TOL, l); sx_eq(m(1, 0), s, TOL, l); sx_eq(m(1, 1), c, TOL, l);
  sx_eq(m(0, 2), p(0), TOL, l); sx_eq(m(1, 2), p(1), TOL, l);
}
