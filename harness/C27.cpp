//@ rt: g2o_rt.cpp stream_rt.cpp
//@ src: src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp src/slam_optimizer/switchable_constraints/edge_switchPrior.cpp
//@ lib: -lg2o_core -lg2o_stuff
//@ bound: every measurement, weight and switch value with magnitude <= 1e6, every history of 4 changes (thorough 5) of switch or measurement
//@ assume: arithmetic over the reals
//@ harness: history budget=60 expect=error,jacobian,chi2
#include "g2o_common.h"
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
SX_HARNESS(history) {
  VertexSwitchLinear v;
  EdgeSwitchPrior e;
  e.setVertex(0, &v);
  double z = sx_real("z", -1e6, 1e6), w = sx_real("w", 0, 1e6), x = 0, saved = 0;
  bool has = false;
  e.setMeasurement(z);
  Eigen::Matrix<double, 1, 1> W;
  W(0, 0) = w;
  e.setInformation(W);
  for (int k = 0; k < SX_TIER(4, 5); ++k) {
    int op = (int)sx_conc(sx_int("op", 0, 4));
    if (op == 0) { x = sx_real("x", -1e6, 1e6); v.setEstimate(x); }
    if (op == 1) { double d = sx_real("d", -1e6, 1e6); v.oplus(&d); x += d; if (x < 0) x = 0; if (x > 1) x = 1; }
    if (op == 2) { z = sx_real("z", -1e6, 1e6); e.setMeasurement(z); }
    if (op == 3) { sx_assume(!has); v.push(); saved = x; has = true; }
    if (op == 4) { sx_assume(has); v.pop(); x = saved; has = false; }
    e.computeError();
    sx_eq(e.error()[0], z - x, 1e-9, "error");
    sx_eq(e.chi2(), (z - x) * w * (z - x), 1e-9, "chi2");
  }
  SxJac J(&e, 1, 1);
  sx_eq(J(0, 0, 0, 1), -1, 0, "jacobian");
  sx_eq(e.measurement(), z, 0, "measurement");
}
