//@ rt: g2o_rt.cpp stream_rt.cpp
//@ src: src/slam_optimizer/switchable_constraints/vertex_switchLinear.cpp
//@ lib: -lg2o_core -lg2o_stuff
//@ bound: every sequence of 5 operations (thorough 6) among: set an estimate, apply an increment, reset, save, restore, drop the saved value, write and read back; values of any magnitude up to 1e6
//@ assume: arithmetic over the reals; numbers written to a stream are read back exactly
//@ harness: history shards=8 budget=100 tbudget=800 expect=estimate,variable,range,readback
#include "g2o_common.h"
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
SX_HARNESS(history) {
  VertexSwitchLinear v;
  double m = 0, saved[8];
  int depth = 0;
  sx_eq(v.estimate(), 0, 0, "estimate");
  sx_eq(v.x(), 0, 0, "variable");
  for (int k = 0; k < SX_TIER(5, 6); ++k) {
    int op = (int)sx_conc(sx_int("op", 0, 6));
    if (op == 0) { double d = sx_real("set", -1e6, 1e6); v.setEstimate(d); m = d; }
    if (op == 1) {
      double d = sx_real("inc", -1e6, 1e6);
      v.oplus(&d);
      m += d;
      if (m < 0) m = 0;
      if (m > 1) m = 1;
      sx_check(v.estimate() >= 0 && v.estimate() <= 1, "range");
    }
    if (op == 2) { v.setToOrigin(); m = 0; }
    if (op == 3) { v.push(); saved[depth++] = m; sx_check(v.stackSize() == depth, "stack"); }
    if (op == 4) { sx_assume(depth > 0); v.pop(); m = saved[--depth]; }
    if (op == 5) { sx_assume(depth > 0); v.discardTop(); --depth; }
    if (op == 6) {
      std::ostream& os = sxOut();
      sx_check(v.write(os), "written");
      std::istream& is = sxIn();
      VertexSwitchLinear w;
      sx_check(w.read(is), "read");
      sx_eq(w.estimate(), m, 1e-12, "readback");
      sx_eq(w.x(), m, 1e-12, "readback variable");
    }
    sx_eq(v.estimate(), m, 1e-9, "estimate");
    sx_eq(v.x(), m, 1e-9, "variable");
  }
}
