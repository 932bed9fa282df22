//@ rt: g2o_rt.cpp stream_rt.cpp
//@ src: src/slam_optimizer/max_mixture/edge_se2_mixture.cpp src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
//@ lib: -lg2o_core -lg2o_types_slam2d -lg2o_stuff -lGL
//@ bound: mixtures of 1 to 3 components over 3 nodes; |x|,|y| <= 100; headings in [-1,1] (whole: [-3.1,3.1]); every measurement; weights and informations: 4 values each (one of them coupled), and in the weights harness every weight in [1e-4,10] and every scale of information in [0.01,100]
//@ bound: histories: two evaluations with new poses between them, or a second set of components
//@ assume: arithmetic over the reals; at least one component; the most-likely component is compared with a slack of 1e-9 in the negative logarithm
//@ harness: se2 budget=60 expect=most-likely,error,information,measurement,vertices
//@ harness: whole budget=60 expect=most-likely,error
//@ harness: weights budget=60 expect=most-likely,error
//@ harness: again budget=60 expect=most-likely,error,number
//@ harness: moved budget=60 expect=most-likely,error,jacobian
//@ harness: xy budget=60 expect=most-likely,error,information,measurement,vertices
//@ harness: xyagain budget=60 expect=most-likely,error
//@ harness: xymoved budget=60 expect=most-likely,error,jacobian
//@ harness: fresh budget=20 expect=none
#include "mixture_common.h"
SX_HARNESS(se2) {
  Nodes n(1);
  Set2 s;
  int k = (int)sx_conc(sx_int("components", 1, SX_TIER(2, 3)));
  for (int i = 0; i < k; ++i) s.add(n, i, menuPick("kind"), 1, true);
  EdgeSE2Mixture e(s.e, s.w);
  sx_check(e.numberComponents == k, "number");
  s.check(e);
}
SX_HARNESS(whole) {
  Nodes n(3.1);
  Set2 s;
  for (int i = 0; i < 2; ++i) s.add(n, 0, i ? 1 : 0, 3.1);
  EdgeSE2Mixture e(s.e, s.w);
  e.computeError();
  s.check(e);
}
SX_HARNESS(weights) {
  Nodes n(1);
  Set2 s;
  double w0 = sx_real("w0", 1e-4, 10), w1 = sx_real("w1", 1e-4, 10);
  int what = (int)sx_conc(sx_int("what", 0, 2));
  double q0 = 1, q1 = 1;
  if (what >= 1) q0 = sx_real("q0", 0.01, 100);
  if (what == 2) q1 = sx_real("q1", 0.01, 100);
  s.addScaled(n, 0, w0, q0);
  s.addScaled(n, 0, w1, q1);
  EdgeSE2Mixture e(s.e, s.w);
  s.check(e);
}
SX_HARNESS(again) {
  Nodes n(1);
  Set2 s, t;
  s.add(n, 0, menuPick("kind"), 1, true);
  s.add(n, 1, 0, 1, true);
  t.add(n, 1, 1, 1, true);
  t.add(n, 2, menuPick("kind2"), 1, true);
  if (sx_conc(sx_int("third", 0, 1))) t.add(n, 0, 3, 1, true);
  EdgeSE2Mixture e;
  e.initializeComponents(s.e, s.w);
  s.check(e);
  e.initializeComponents(t.e, t.w);
  sx_check(e.numberComponents == (int)t.e.size(), "number");
  t.check(e);
}
SX_HARNESS(moved) {
  Nodes n(1);
  Set2 s;
  int which = (int)sx_conc(sx_int("which", 0, 1));
  g2o::SE2 before = n.p[which].estimate();
  n.move(which, 1);
  g2o::SE2 after = n.p[which].estimate();
  s.add(n, 0, menuPick("kind"), 1, true);
  s.add(n, 1, 2, 1, true);
  n.p[which].setEstimate(before);
  EdgeSE2Mixture e(s.e, s.w);
  n.p[which].setEstimate(after);
  if (sx_conc(sx_int("by", 0, 1))) e.computeError();
  SxJac J(&e, 2, 9);
  int b = s.check(e);
  SxJac R(s.ref[b], 2, 9);
  for (int v = 0; v < 2; ++v)
    for (int r = 0; r < 3; ++r)
      for (int c = 0; c < 3; ++c) { double x = J(v, r, c, 3), y = R(v, r, c, 3); sx_eq(x, y, 1e-9, "jacobian"); }
}
SX_HARNESS(xy) {
  Nodes n(1);
  SetXY s;
  int k = (int)sx_conc(sx_int("components", 1, 3));
  for (int i = 0; i < k; ++i) s.add(n, i, menuPick("kind"), true);
  EdgeSE2PointXYMixture e(s.e, s.w);
  sx_check(e.numberComponents == k, "number");
  s.check(e);
}
SX_HARNESS(xyagain) {
  Nodes n(1);
  SetXY s, t;
  t.add(n, 1, 1, true);
  t.add(n, 2, 3, true);
  s.add(n, 0, menuPick("kind"), true);
  s.add(n, 1, menuPick("kind2"), true);
  EdgeSE2PointXYMixture e(t.e, t.w);
  e.initializeComponents(s.e, s.w);
  s.check(e);
}
SX_HARNESS(xymoved) {
  Nodes n(1);
  SetXY s;
  s.add(n, 0, menuPick("kind"));
  s.add(n, 1, 2);
  EdgeSE2PointXYMixture e;
  e.initializeComponents(s.e, s.w);
  n.move((int)sx_conc(sx_int("which", 0, 1)), 1);
  n.shift(0);
  e.computeError();
  SxJac J(&e, 2, 9);
  int b = s.check(e);
  SxJac R(s.ref[b], 2, 9);
  for (int v = 0; v < 2; ++v)
    for (int r = 0; r < 2; ++r)
      for (int c = 0; c < (v ? 2 : 3); ++c) { double x = J(v, r, c, 2), y = R(v, r, c, 2); sx_eq(x, y, 1e-9, "jacobian"); }
}
SX_HARNESS(fresh) {
  EdgeSE2Mixture a;
  EdgeSE2PointXYMixture b;
  sx_check(a.numberComponents == 0, "none");
  sx_check(b.numberComponents == 0, "none");
  sx_check(a.getBestComponent() == -1, "none");
  sx_check(b.getBestComponent() == -1, "none");
}
