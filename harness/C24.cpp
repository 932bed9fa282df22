//@ bound: translations |x|,|y| <= 1e4 (reals), headings in [-20, 20]
//@ assume: arithmetic is over the reals; sin/cos/atan2 through exact axioms
//@ harness: add budget=60 expect=ap-x,ap-y,ap-range,ap-sin
//@ harness: node budget=60 expect=nd-x,nd-range,nd-sin
#include "pose_common.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
typedef Slam2d_Policy P;
SX_HARNESS(add) {
  Pose a = symPose("a", 20), b = symPose("b", 20);
  Pose r = P::addPoses(a, b);
  sx_eq(r(0), a(0) + b(0), TOL, "ap-x"); sx_eq(r(1), a(1) + b(1), TOL, "ap-y");
  sx_check(r(2) <= M_PI + 1e-9 && r(2) >= -M_PI - 1e-9, "ap-range");
  eqAngle(r(2), a(2) + b(2), "ap-sin", "ap-cos");
}
SX_HARNESS(node) {  // a sequence of increments on a graph node
  typedef slamuk::Graph<P, int> G;
  G g; Pose a = symPose("a", 20); g.addNode(G::N(a, 1)); g.addNode(G::N(Pose(1, 2, 3), 1));
  Pose b = symPose("b", 20), c = symPose("c", 20);
  g.getNode(0).addToPose(b);
  if (sx_bool("move")) g.getNode(0).addToPose(Pose(c)); else g.getNode(0).addToPose(c);
  const Pose& r = g.getNode(0).getPose();
  sx_eq(r(0), a(0) + b(0) + c(0), TOL, "nd-x"); sx_eq(r(1), a(1) + b(1) + c(1), TOL, "nd-y");
  sx_check(r(2) <= M_PI + 1e-9 && r(2) >= -M_PI - 1e-9, "nd-range");
  eqAngle(r(2), a(2) + b(2) + c(2), "nd-sin", "nd-cos");
  sx_check(g.getNode(1).getPose()(2) == 3, "nd-other");
}
