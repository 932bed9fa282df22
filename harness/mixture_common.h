// Mixtures with independent copies of their components.
#pragma once
#include "g2o_common.h"
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h>
#include <cmath>
struct Nodes {
  g2o::VertexSE2 p[3];
  g2o::VertexPointXY q[2];
  explicit Nodes(double h) {
    sx_lazy(true);
    for (int i = 0; i < 3; ++i) { p[i].setId(10 + i); if (i < 2) move(i, h); }
    p[2].setEstimate(g2o::SE2(1.5, -2, 0.25));
    for (int i = 0; i < 2; ++i) { q[i].setId(20 + i); shift(i); }
  }
  void move(int i, double h) {
    double x = sx_real("x", -100, 100), y = sx_real("y", -100, 100), t = sx_angle("t", -h, h);
    p[i].setEstimate(g2o::SE2(x, y, t));
  }
  void shift(int i) {
    double x = sx_real("px", -100, 100), y = sx_real("py", -100, 100);
    q[i].setEstimate(Eigen::Vector2d(x, y));
  }
};
static inline int menuPick(const char* n) { return (int)sx_conc(sx_int(n, 0, SX_TIER(2, 3))); }
static const double kWeight[4] = {1, 0.5, 1e-3, 3};
static inline Eigen::Matrix3d menuInfo(int k) {
  Eigen::Matrix3d m;
  if (k == 0) m << 1, 0, 0, 0, 1, 0, 0, 0, 1;
  if (k == 1) m << 4, 0, 0, 0, 0.25, 0, 0, 0, 2;
  if (k == 2) m << 2, 0.5, 0.25, 0.5, 1, 0.125, 0.25, 0.125, 3;
  if (k == 3) m << 1e-3, 0, 0, 0, 1e-3, 0, 0, 0, 1e-3;
  return m;
}
static inline double det3(const Eigen::Matrix3d& m) {
  return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) +
         m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}
template <class Edge, class Mixture> struct SetOf {
  std::vector<Edge*> e, ref;
  std::vector<double> w;
  double ld[4];  // log of the determinant of the covariance
  int check(Mixture& m) {
    int b = m.getBestComponent(), k = (int)e.size();
    sx_check(b >= 0 && b < k, "in range");
    double nll[4];
    for (int i = 0; i < k; ++i) {
      ref[i]->computeError();
      double c = ref[i]->chi2();
      nll[i] = 0.5 * c - std::log(w[i]) + 0.5 * ld[i];
    }
    for (int i = 0; i < k; ++i) sx_check(nll[b] <= nll[i] + 1e-9, "most-likely");
    Edge* r = ref[b];
    for (int i = 0; i < r->error().size(); ++i) { double x = m.error()[i], y = r->error()[i]; sx_eq(x, y, 1e-9, "error"); }
    for (int i = 0; i < r->error().size(); ++i)
      for (int j = 0; j < r->error().size(); ++j) { double x = m.information()(i, j), y = r->information()(i, j); sx_eq(x, y, 0, "information"); }
    sx_check(m.vertex(0) == r->vertex(0) && m.vertex(1) == r->vertex(1), "vertices");
    double p[3], q[3];
    m.getMeasurementData(p);
    r->getMeasurementData(q);
    for (int i = 0; i < r->error().size(); ++i) sx_eq(p[i], q[i], 1e-9, "measurement");
    sx_check(m.getComponent(b) == e[b], "component");
    return b;
  }
};
struct Set2 : SetOf<g2o::EdgeSE2, EdgeSE2Mixture> {
  void put(Nodes& n, int pair, double weight, const Eigen::Matrix3d& inf, double logdet, const g2o::SE2& z) {
    int a = pair == 2 ? 2 : 0, b = pair == 1 ? 2 : 1;
    ld[e.size()] = logdet;
    for (int c = 0; c < 2; ++c) {
      g2o::EdgeSE2* x = new g2o::EdgeSE2;
      x->setVertex(0, &n.p[a]);
      x->setVertex(1, &n.p[b]);
      x->setMeasurement(z);
      x->setInformation(inf);
      (c ? ref : e).push_back(x);
    }
    w.push_back(weight);
  }
  // a measurement; with near: the one that leaves the given residual
  static g2o::SE2 any(Nodes& n, int pair, double h, bool near) {
    double x = sx_real("zx", -100, 100), y = sx_real("zy", -100, 100), t = sx_angle("zt", -h, h);
    g2o::SE2 d(x, y, t);
    if (!near) return d;
    const g2o::SE2 &a = n.p[pair == 2 ? 2 : 0].estimate(), &b = n.p[pair == 1 ? 2 : 1].estimate();
    return (a.inverse() * b) * d.inverse();
  }
  void add(Nodes& n, int pair, int kind, double h, bool near = false) {
    Eigen::Matrix3d m = menuInfo(kind);
    double d = -std::log(det3(m));
    put(n, pair, kWeight[kind], m, d, any(n, pair, h, near));
  }
  void addScaled(Nodes& n, int pair, double weight, double q) {
    Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
    m(1, 1) = q;
    double d = std::log(1 / q);
    put(n, pair, weight, m, d, any(n, pair, 1, true));
  }
};
struct SetXY : SetOf<g2o::EdgeSE2PointXY, EdgeSE2PointXYMixture> {
  void add(Nodes& n, int pair, int kind, bool near = false) {
    Eigen::Matrix2d m = menuInfo(kind).topLeftCorner<2, 2>();
    double d = -std::log(m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0));
    double x = sx_real("zx", -100, 100), y = sx_real("zy", -100, 100);
    if (near) {
      Eigen::Vector2d r = n.p[pair == 2 ? 1 : 0].estimate().inverse() * n.q[pair == 1 ? 1 : 0].estimate();
      x += r[0]; y += r[1];
    }
    Eigen::Vector2d z(x, y);
    ld[e.size()] = d;
    for (int c = 0; c < 2; ++c) {
      g2o::EdgeSE2PointXY* f = new g2o::EdgeSE2PointXY;
      f->setVertex(0, &n.p[pair == 2 ? 1 : 0]);
      f->setVertex(1, &n.q[pair == 1 ? 1 : 0]);
      f->setMeasurement(z);
      f->setInformation(m);
      (c ? ref : e).push_back(f);
    }
    w.push_back(kWeight[kind]);
  }
};
