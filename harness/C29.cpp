//@ rt: g2o_rt.cpp stream_rt.cpp
//@ src: src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp src/slam_optimizer/switchable_constraints/edge_se2Switchable.cpp src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
//@ lib: -lg2o_core -lg2o_types_slam2d -lg2o_stuff
//@ bound: every finite value of measurement, information and switch up to 1e6 (headings in [-3.1,3.1]), three elements after another in one stream; mixtures of 1 to 3 components over 3 nodes, read into a fresh and into a used edge
//@ assume: arithmetic over the reals; a number written to a stream is read back exactly (the precision of the stream is the caller's)
//@ harness: robust budget=60 expect=read,measurement,information,switch,error
#include "g2o_common.h"
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
SX_HARNESS(robust) {
  sx_lazy(true);
  VertexSwitchLinear s, s2;
  EdgeSE2Switchable e, e2;
  EdgeSwitchPrior p, p2;
  double sw = sx_real("switch", -1e6, 1e6), z = sx_real("prior", -1e6, 1e6), w = sx_real("weight", 0, 1e6);
  s.setEstimate(sw);
  double x = sx_real("x", -100, 100), y = sx_real("y", -100, 100), t = sx_angle("t", -3.1, 3.1);
  e.setMeasurement(g2o::SE2(x, y, t));
  Eigen::Matrix3d m;
  for (int i = 0; i < 3; ++i)
    for (int j = i; j < 3; ++j) { double v = sx_real("inf", -1e6, 1e6); m(i, j) = v; m(j, i) = v; }
  e.setInformation(m);
  p.setMeasurement(z);
  Eigen::Matrix<double, 1, 1> W;
  W(0, 0) = w;
  p.setInformation(W);
  // what the second edge held before must not matter
  e2.setMeasurement(g2o::SE2(1, 2, 3));
  e2.setInformation(Eigen::Matrix3d::Constant(7));
  std::ostream& os = sxOut();
  int order = (int)sx_conc(sx_int("order", 0, 2));
  for (int k = 0; k < 3; ++k) {
    int what = (order + k) % 3;
    bool ok = what == 0 ? s.write(os) : what == 1 ? e.write(os) : p.write(os);
    sx_check(ok, "written");
    os << "\n";
  }
  std::istream& is = sxIn();
  for (int k = 0; k < 3; ++k) {
    int what = (order + k) % 3;
    bool ok = what == 0 ? s2.read(is) : what == 1 ? e2.read(is) : p2.read(is);
    sx_check(ok, "read");
  }
  sx_check(sxConsumed(), "all of it");
  sx_eq(s2.estimate(), sw, 1e-9, "switch");
  sx_eq(s2.x(), sw, 1e-9, "switch");
  sx_eq(p2.measurement(), z, 1e-9, "prior");
  sx_eq(p2.information()(0, 0), w, 1e-9, "prior weight");
  double a[3] = {e2.measurement().translation().x(), e2.measurement().translation().y(), e2.measurement().rotation().angle()};
  sx_eq(a[0], x, 1e-9, "measurement");
  sx_eq(a[1], y, 1e-9, "measurement");
  sx_eq(a[2], t, 1e-9, "measurement");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) sx_eq(e2.information()(i, j), m(i, j), 1e-9, "information");
  // the copy behaves like the original
  g2o::VertexSE2 v0, v1;
  double vx = sx_real("vx", -100, 100), vy = sx_real("vy", -100, 100), vt = sx_angle("vt", -1, 1);
  v0.setEstimate(g2o::SE2(1, 0.5, -0.75));
  v1.setEstimate(g2o::SE2(vx, vy, vt));
  e.setVertex(0, &v0); e.setVertex(1, &v1); e.setVertex(2, &s);
  e2.setVertex(0, &v0); e2.setVertex(1, &v1); e2.setVertex(2, &s);
  e.computeError();
  e2.computeError();
  for (int i = 0; i < 3; ++i) { double u = e.error()[i], v = e2.error()[i]; sx_eq(u, v, 1e-6, "error"); }
}
