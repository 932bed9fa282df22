//@ bound: translations |x|,|y| <= 1e3 (reals), headings in [-10, 10]
//@ assume: arithmetic is over the reals; sin/cos enter as points of the unit circle tied by the addition theorems
//@ assume: Eigen's SVD-based rotation() returns the rotation closest to the linear part (contract, replayed natively)
//@ harness: residual budget=100 expect=e-x,e-y,e-sin,e-range
//@ harness: zero budget=60 expect=z-x,z-y,z-a
//@ harness: edge budget=60 expect=g-x,g-y,g-sin
#include "pose_common.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
typedef Slam2d_Policy P;
SX_HARNESS(residual) {  // the residual of an edge whose end moved by d off the measurement is d
  Pose xi = symPose("i", 10, 1e3), z = symPose("z", 10, 1e3), d = symPose("d", 3, 1e3);
  Pose xj = compose(compose(xi, z), d);
  Pose e = P::calcError(xi, xj, z);
  sx_eq(e(0), d(0), TOL, "e-x"); sx_eq(e(1), d(1), TOL, "e-y");
  eqAngle(e(2), d(2), "e-sin", "e-cos");
  sx_check(e(2) <= M_PI + 1e-9 && e(2) >= -M_PI - 1e-9, "e-range");
}
SX_HARNESS(zero) {  // a measurement that agrees with the poses has no residual
  Pose xi = symPose("i", 10, 1e3), z = symPose("z", 10, 1e3);
  Pose e = P::calcError(xi, compose(xi, z), z);
  sx_eq(e(0), 0, TOL, "z-x"); sx_eq(e(1), 0, TOL, "z-y"); sx_eq(e(2), 0, TOL, "z-a");
}
SX_HARNESS(edge) {  // an edge of the graph reports the residual between its own nodes
  typedef slamuk::Graph<P, int> G;
  Pose xi = symPose("i", 3, 1e3), z = symPose("z", 3, 1e3), xj = symPose("j", 3, 1e3);
  G g; g.addNode(G::N(xi, 1)); g.addNode(G::N(xj, 2));
  size_t id = g.addEdge(G::E(&g.getNode(0), &g.getNode(1), z, P::InformMatrix::Identity()));
  Pose e = g.getEdge(id).getError();
  // z * e must be the pose of j seen from i
  Pose a = compose(xi, compose(z, e));
  sx_eq(a(0), xj(0), TOL, "g-x"); sx_eq(a(1), xj(1), TOL, "g-y");
  eqAngle(a(2), xj(2), "g-sin", "g-cos");
  eqTr(g.getEdge(id).getTransMatrix(), z, "g-mat");
}
