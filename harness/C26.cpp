//@ rt: g2o_rt.cpp stream_rt.cpp
//@ src: src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp
//@ lib: -lg2o_core -lg2o_types_slam2d -lg2o_stuff
//@ bound: every pair of poses and every measurement with |x|,|y| <= 100 and heading in [-3.1,3.1], every switch value in [-10,10], every increment
//@ bound: history harness: poses, measurement and switch are each changed once between two evaluations
//@ assume: arithmetic over the reals; sine and cosine are a point on the unit circle with the addition theorems
//@ harness: error budget=60 expect=x,y,heading,halfturn
//@ harness: jacobian budget=60 expect=Jx,Js,same
//@ harness: history budget=60 expect=x2,y2,heading2
#include "g2o_common.h"
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
struct Pose { double x, y, t; };
static Pose any(const char* x, const char* y, const char* t) { Pose p; p.x = sx_real(x, -100, 100); p.y = sx_real(y, -100, 100); p.t = sx_angle(t, -3.1, 3.1); return p; }
static g2o::SE2 se2(const Pose& p) { return g2o::SE2(p.x, p.y, p.t); }
// residual: the measured displacement taken off the actual one, in the frame of
// the measured end pose
static void residual(const Pose& i, const Pose& j, const Pose& z, double& rx, double& ry) {
  double dx = j.x - i.x, dy = j.y - i.y, c = std::cos(i.t), s = std::sin(i.t);
  double ax = c * dx + s * dy - z.x, ay = -s * dx + c * dy - z.y, zc = std::cos(z.t), zs = std::sin(z.t);
  rx = zc * ax + zs * ay;
  ry = -zs * ax + zc * ay;
}
struct Fix {
  g2o::VertexSE2 a, b;
  VertexSwitchLinear s;
  EdgeSE2Switchable e;
  Fix() { e.setVertex(0, &a); e.setVertex(1, &b); e.setVertex(2, &s); }
};
static void checkError(Fix& f, const Pose& i, const Pose& j, const Pose& z, double w, const char* lx, const char* ly, const char* lt) {
  f.e.computeError();
  double rx, ry;
  residual(i, j, z, rx, ry);
  double ex = f.e.error()[0], ey = f.e.error()[1], et = f.e.error()[2];
  sx_eq(ex, rx * w, 1e-6, lx);
  sx_eq(ey, ry * w, 1e-6, ly);
  if (w == 0) { sx_eq(et, 0, 1e-6, lt); return; }
  double d = j.t - i.t - z.t;  // the same up to whole turns, and within half a turn
  double tp = 2 * 3.14159265358979323846;
  bool k = false;
  for (int n = -2; n <= 2; ++n) { double x = (d + n * tp) * w; k = k | (fabs(et - x) <= 1e-6 * (1 + fabs(w))); }
  sx_check(k, lt);
  double h = 3.14159265358979323846 + 1e-6;
  double q = et / w;
  sx_check((q <= h) & (q >= -h), "halfturn");
}
SX_HARNESS(error) {
  Fix f;
  Pose i = any("xi", "yi", "ti"), j = any("xj", "yj", "tj"), z = any("xz", "yz", "tz");
  double w = sx_real("switch", -10, 10);
  f.a.setEstimate(se2(i)); f.b.setEstimate(se2(j)); f.s.setEstimate(w); f.e.setMeasurement(se2(z));
  checkError(f, i, j, z, w, "x", "y", "heading");
}
SX_HARNESS(history) {
  Fix f;
  Pose i = any("xi", "yi", "ti"), j = any("xj", "yj", "tj"), z = any("xz", "yz", "tz");
  double w = sx_real("switch", -10, 10);
  f.a.setEstimate(se2(i)); f.b.setEstimate(se2(j)); f.s.setEstimate(w); f.e.setMeasurement(se2(z));
  f.e.computeError();
  int what = (int)sx_conc(sx_int("what", 0, 3));
  if (what == 0) { i = any("xi2", "yi2", "ti2"); f.a.setEstimate(se2(i)); }
  if (what == 1) { j = any("xj2", "yj2", "tj2"); f.b.setEstimate(se2(j)); }
  if (what == 2) { z = any("xz2", "yz2", "tz2"); f.e.setMeasurement(se2(z)); }
  if (what == 3) {
    double d = sx_real("inc", -2, 2);
    f.s.setEstimate(0.5);
    f.s.oplus(&d);
    w = 0.5 + d;
    if (w < 0) w = 0;
    if (w > 1) w = 1;
  }
  checkError(f, i, j, z, w, "x2", "y2", "heading2");
}
SX_HARNESS(jacobian) {
  Fix f;
  Pose i = any("xi", "yi", "ti"), j = any("xj", "yj", "tj"), z = any("xz", "yz", "tz");
  double w = sx_real("switch", -10, 10);
  f.a.setEstimate(se2(i)); f.b.setEstimate(se2(j)); f.s.setEstimate(w); f.e.setMeasurement(se2(z));
  SxJac J(&f.e, 3, 9);
  double c = std::cos(i.t), s = std::sin(i.t), zc = std::cos(z.t), zs = std::sin(z.t), dx = j.x - i.x, dy = j.y - i.y;
  // inner derivatives of R(ti)^T (tj - ti), then the measured rotation undone
  double A[2][3] = {{-c, -s, -s * dx + c * dy}, {s, -c, -c * dx - s * dy}}, B[2][3] = {{c, s, 0}, {-s, c, 0}};
  for (int k = 0; k < 3; ++k) {
    double ax = zc * A[0][k] + zs * A[1][k], ay = -zs * A[0][k] + zc * A[1][k], bx = zc * B[0][k] + zs * B[1][k], by = -zs * B[0][k] + zc * B[1][k];
    sx_eq(J(0, 0, k, 3), ax * w, 1e-6, "Jx"); sx_eq(J(0, 1, k, 3), ay * w, 1e-6, "Jy"); sx_eq(J(0, 2, k, 3), k == 2 ? -w : 0, 1e-6, "Jt");
    sx_eq(J(1, 0, k, 3), bx * w, 1e-6, "Jx"); sx_eq(J(1, 1, k, 3), by * w, 1e-6, "Jy"); sx_eq(J(1, 2, k, 3), k == 2 ? w : 0, 1e-6, "Jt");
  }
  double rx, ry;
  residual(i, j, z, rx, ry);
  sx_eq(J(2, 0, 0, 3), rx, 1e-6, "Js"); sx_eq(J(2, 1, 0, 3), ry, 1e-6, "Js");
  f.e.computeError();
  double et = f.e.error()[2];
  sx_eq(J(2, 2, 0, 3) * w, et, 1e-6, "same");
  sx_eq(f.s.estimate(), w, 0, "switch kept");
  sx_eq(f.a.estimate().translation()[0], i.x, 0, "pose kept");
}
