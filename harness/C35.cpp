//@ bound: translations within +-1e4 (reals), headings in [-pi, pi] and, unwrapped, [-20, 20]; scalar types double and float
//@ assume: arithmetic is over the reals; sin/cos enter as points of the unit circle; Eigen's rotation() of a rigid transform is its linear part (contract, replayed natively)
//@ harness: matrix budget=60 expect=rot,trans,fixed
//@ harness: roundtrip budget=60 expect=rt-x,rt-y,rt-angle
//@ harness: unwrapped budget=60 expect=uw-range,uw-sin,uw-cos
//@ harness: act budget=60 expect=moved,height,compose
//@ harness: floats budget=60 expect=f-mat,f-vec
#include "sx.h"
#include <algorithm>
#include <ndt_gslam/registration/ndt_reg_tools.h>
using namespace pcl::ndt_reg;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix4d M4;
static const double TOL = 1e-6;
static V3 pose(const char* n, double amax) {
  double x = sx_real(n, -1e4, 1e4); double y = sx_real(n, -1e4, 1e4); double a = sx_angle(n, -amax, amax);
  return V3(x, y, a);
}
SX_HARNESS(matrix) {
  V3 p = pose("p", 20);
  M4 m = vecToMat<double>(p);
  double s = std::sin(p(2)), c = std::cos(p(2));
  sx_eq(m(0, 0), c, TOL, "rot"); sx_eq(m(1, 1), c, TOL, "rot"); sx_eq(m(0, 1), -s, TOL, "rot"); sx_eq(m(1, 0), s, TOL, "rot");
  sx_eq(m(0, 3), p(0), TOL, "trans"); sx_eq(m(1, 3), p(1), TOL, "trans"); sx_eq(m(2, 3), 0, TOL, "trans");
  for (int i = 0; i < 2; ++i) { sx_eq(m(2, i), 0, TOL, "fixed"); sx_eq(m(i, 2), 0, TOL, "fixed"); }
  sx_eq(m(2, 2), 1, TOL, "fixed");
  for (int i = 0; i < 4; ++i) sx_eq(m(3, i), i == 3, TOL, "fixed");
}
SX_HARNESS(roundtrip) {
  V3 p = pose("p", M_PI);
  sx_assume(p(2) > -M_PI);
  V3 q = matToVec<double>(vecToMat<double>(p));
  sx_eq(q(0), p(0), TOL, "rt-x"); sx_eq(q(1), p(1), TOL, "rt-y"); sx_eq(q(2), p(2), TOL, "rt-angle");
}
SX_HARNESS(unwrapped) {
  V3 p = pose("p", 20);
  V3 q = matToVec<double>(vecToMat<double>(p));
  sx_eq(q(0), p(0), TOL, "uw-x"); sx_eq(q(1), p(1), TOL, "uw-y");
  sx_check((q(2) <= M_PI + 1e-9) & (q(2) >= -M_PI - 1e-9), "uw-range");
  sx_eq(std::sin(q(2)), std::sin(p(2)), TOL, "uw-sin");
  sx_eq(std::cos(q(2)), std::cos(p(2)), TOL, "uw-cos");
}
SX_HARNESS(act) {
  V3 p = pose("p", 20), q = pose("q", 20);
  double x = sx_real("x", -1e4, 1e4); double y = sx_real("y", -1e4, 1e4); double z = sx_real("z", -1e4, 1e4);
  Eigen::Vector4d v(x, y, z, 1);
  M4 m = vecToMat<double>(p), n = vecToMat<double>(q);
  Eigen::Vector4d w = m * v;
  double s = std::sin(p(2)), c = std::cos(p(2));
  sx_eq(w(0), c * x - s * y + p(0), TOL, "moved");
  sx_eq(w(1), s * x + c * y + p(1), TOL, "moved");
  sx_eq(w(2), z, TOL, "height");
  sx_eq(w(3), 1, TOL, "height");
  M4 mn = n * m;
  V3 r = matToVec<double>(mn);
  Eigen::Vector4d u = n * w;
  double rs = std::sin(r(2)), rc = std::cos(r(2));
  sx_eq(rc * x - rs * y + r(0), u(0), TOL, "compose");
  sx_eq(rs * x + rc * y + r(1), u(1), TOL, "compose");
}
SX_HARNESS(floats) {
  double x = sx_fix("x", -1000, 1000, -2); double y = sx_fix("y", -1000, 1000, -2); double a = sx_angle("a", -3.1, 3.1);
  V3 p(x, y, a);
  Eigen::Matrix4f m = vecToMat<float>(p);
  Eigen::Matrix4f d = vecToMat(p);
  double s = std::sin(a), c = std::cos(a);
  sx_eq(m(0, 0), c, 1e-4, "f-mat"); sx_eq(m(1, 0), s, 1e-4, "f-mat"); sx_eq(m(0, 1), -s, 1e-4, "f-mat"); sx_eq(m(1, 1), c, 1e-4, "f-mat");
  sx_eq(m(0, 3), x, 1e-4, "f-mat"); sx_eq(m(1, 3), y, 1e-4, "f-mat");
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) sx_eq(m(i, j), d(i, j), 1e-6, "f-mat");
  V3 q = matToVec<float>(m);
  sx_eq(q(0), x, 1e-4, "f-vec"); sx_eq(q(1), y, 1e-4, "f-vec"); sx_eq(q(2), a, 1e-4, "f-vec");
}
