//@ src: src/ndt/ndt_cell.cpp
//@ rt: eig_rt.cpp str_rt.cpp
//@ cxx: -DSX_MAX_TERM -include eig_model.h
//@ bound: any state reached by any two of {compute from 0-7 points, set occupancy -100..100, ray update, transform, set mean, merge} from a new cell, real parameters (one coordinate of the points, the set mean, the translation) within +-50, ray parallel to the x axis
//@ assume: arithmetic is over the reals; Eigen's SelfAdjointEigenSolver returns an orthonormal ascending eigendecomposition and the rotation of a rigid transform is its linear part (contracts, replayed natively)
//@ harness: message shards=4 budget=150 expect=mean,cov,occupancy,points
#include "cell_common.h"
static void op(C& c) {
  int k = (int)sx_conc(sx_int("op", 0, 5));
  if (k == 0) {
    int n = (int)sx_conc(sx_int("n", 0, 7));
    double x = sx_real("x", -50, 50);
    V3 m(x, 3, -1);
    double r[3] = {1, 2, 0.5};
    if (n >= 6) addStar(c, m, M3::Identity(), r, n - 6);
    else for (int i = 0; i < n; ++i) c.addPoint(m);
    c.computeGaussian();
  } else if (k == 1) {
    int o = (int)sx_int("occ", -100, 100);
    c.setOccupancy((int8_t)o);
  } else if (k == 2) {
    int n = (int)sx_int("w", 0, 20);
    c.updateOccupancy(V3(-60, 2, 0), V3(40, 2, 0), n);
  } else if (k == 3) {
    C::Transform t = C::Transform::Identity();
    t.matrix()(0, 3) = sx_real("t", -50, 50);
    c.transform(t);
  } else if (k == 4) {
    double x = sx_real("x", -50, 50);
    c.setMean(V3(x, 3, -1));
  } else {
    double r[3] = {0.5, 1, 2};
    C d = star(V3(1, 3, -1), r, 0);
    c += d;
  }
}
SX_HARNESS(message) {
  C c;
  for (int i = 0; i < SX_TIER(2, 3); ++i) op(c);
  slamuk::NDTCellMsg m = c.serialize();
  eqV(m.mean_, c.getMean(), "mean");
  eqM(m.cov_, c.getCov(), 1e-9, "cov");
  sx_eq(m.occupancy_, c.getOccupancyRaw(), 1e-9, "occupancy");
  sx_check(m.points_ == (long)c.points(), "points");
}
