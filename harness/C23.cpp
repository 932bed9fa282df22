//@ bound: translations |x|,|y| <= 1e3 (reals), headings in [-10, 10]
//@ assume: arithmetic is over the reals; sin/cos enter as points of the unit circle tied by the addition theorems
//@ assume: the residual is affine in each translation and a sinusoid in each heading, so central differences (step 1; step pi/2) are exact derivatives
//@ harness: jac_i budget=100 expect=ai-t,ai-r
//@ harness: jac_j budget=100 expect=bj-t,bj-r
//@ harness: jac_edge budget=60 expect=ed
#include "pose_common.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
typedef Slam2d_Policy P;
static void cmp(const Eigen::Matrix3d& J, bool first, const Pose& xi, const Pose& xj, const Pose& z, const char* lt, const char* lr) {
  for (int k = 0; k < 3; ++k) {
    double h = k == 2 ? M_PI / 2 : 1;
    Pose up = first ? xi : xj, dn = up;
    up(k) += h; dn(k) -= h;
    Pose a = first ? P::calcError(up, xj, z) : P::calcError(xi, up, z);
    Pose b = first ? P::calcError(dn, xj, z) : P::calcError(xi, dn, z);
    for (int r = 0; r < 2; ++r) sx_eq(J(r, k), (a(r) - b(r)) * 0.5, TOL, k == 2 ? lr : lt);
    // heading of the residual: a turn of h turns it by +-h, translations leave it
    sx_eq(std::sin(J(2, k) * (M_PI / 3)), k < 2 ? 0.0 : std::sin((first ? -1 : 1) * M_PI / 3), TOL, lt);
    sx_eq(J(2, k), k < 2 ? 0.0 : (first ? -1.0 : 1.0), TOL, lr);
  }
}
SX_HARNESS(jac_i) {
  Pose xi = symPose("i", 10, 1e3), xj = symPose("j", 10, 1e3), z = symPose("z", 10, 1e3);
  P::JacobianPair jp = P::calcJacobianBlocks(xi, xj, z);
  cmp(jp.first, true, xi, xj, z, "ai-t", "ai-r");
}
SX_HARNESS(jac_j) {
  Pose xi = symPose("i", 10, 1e3), xj = symPose("j", 10, 1e3), z = symPose("z", 10, 1e3);
  P::JacobianPair jp = P::calcJacobianBlocks(xi, xj, z);
  cmp(jp.second, false, xi, xj, z, "bj-t", "bj-r");
}
SX_HARNESS(jac_edge) {
  typedef slamuk::Graph<P, int> G;
  Pose xi = symPose("i", 3, 1e3), z = symPose("z", 3, 1e3), xj = symPose("j", 3, 1e3);
  G g; g.addNode(G::N(xi, 1)); g.addNode(G::N(xj, 2));
  size_t id = g.addEdge(G::E(&g.getNode(0), &g.getNode(1), z, P::InformMatrix::Identity()));
  P::JacobianPair a = g.getEdge(id).getJacobianBlocks();
  double s = std::sin(xi(2) + z(2)), c = std::cos(xi(2) + z(2)), dx = xj(0) - xi(0), dy = xj(1) - xi(1);
  double A[3][3] = {{-c, -s, -s * dx + c * dy}, {s, -c, -c * dx - s * dy}, {0, 0, -1}}, B[3][3] = {{c, s, 0}, {-s, c, 0}, {0, 0, 1}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { sx_eq(a.first(i, j), A[i][j], TOL, "ed"); sx_eq(a.second(i, j), B[i][j], TOL, "ed"); }
}
