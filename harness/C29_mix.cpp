//@ rt: g2o_rt.cpp stream_rt.cpp
//@ src: src/slam_optimizer/max_mixture/edge_se2_mixture.cpp src/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp
//@ lib: -lg2o_core -lg2o_types_slam2d -lg2o_stuff -lGL
//@ harness: mixture budget=60 expect=read,measurement,information,nodes,most-likely,error
//@ harness: landmark budget=60 expect=read,measurement,information,nodes,most-likely,error
#include "mixture_common.h"
struct Graph {
  InGraph<g2o::VertexSE2> a, b, c;
  InGraph<g2o::VertexPointXY> p, q;
  Graph() : a(3), b(12), c(7), p(25), q(31) {
    sx_lazy(true);
    a.setEstimate(g2o::SE2(3, -1.5, 0.5));
    b.setEstimate(g2o::SE2(1, -2, -0.25));
    c.setEstimate(g2o::SE2(0.5, 4, 1));
    p.setEstimate(Eigen::Vector2d(2, 3));
    q.setEstimate(Eigen::Vector2d(-4, -1));
  }
  g2o::VertexSE2* from(int i) { return i == 2 ? &c : &a; }
  g2o::VertexSE2* to(int i) { return i == 1 ? &c : &b; }
  g2o::VertexPointXY* mark(int i) { return i == 1 ? &q : &p; }
};
template <class Edge, class M> static void compare(M& m, M& r, std::vector<Edge*>& e) {
  int k = (int)e.size(), n = (int)e[0]->error().size();
  sx_check(r.numberComponents == k, "number");
  for (int i = 0; i < k; ++i) {
    Edge* c = r.getComponent(i);
    sx_check(c->vertex(0) == e[i]->vertex(0) && c->vertex(1) == e[i]->vertex(1), "nodes");
    double u[3], v[3];
    c->getMeasurementData(u);
    e[i]->getMeasurementData(v);
    for (int j = 0; j < n; ++j) sx_eq(u[j], v[j], 1e-9, "measurement");
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) { double x = c->information()(a, b), y = e[i]->information()(a, b); sx_eq(x, y, 1e-9, "information"); }
  }
  // weights have no accessor; they show in the choice of the component
  sx_check(r.getBestComponent() == m.getBestComponent(), "most-likely");
  for (int j = 0; j < n; ++j) { double x = r.error()[j], y = m.error()[j]; sx_eq(x, y, 1e-6, "error"); }
}
template <class Edge, class M, class F> static void roundTrip(Graph& g, std::vector<Edge*>& e, std::vector<double>& w, F start) {
  M m(e, w);
  std::ostream& os = sxOut();
  sx_check(m.write(os), "written");
  M r;
  if (sx_conc(sx_int("used", 0, 1))) {
    std::vector<Edge*> o;
    std::vector<double> ow;
    int n = SX_TIER(2, 3);
    for (int i = 0; i < n; ++i) { o.push_back(e[i % e.size()]); ow.push_back(0.25); }
    r.initializeComponents(o, ow);
  } else start(r);
  std::istream& is = sxIn();
  sx_check(r.read(is), "read");
  sx_check(sxConsumed(), "all of it");
  compare(m, r, e);
}
SX_HARNESS(mixture) {
  Graph g;
  std::vector<g2o::EdgeSE2*> e;
  std::vector<double> w;
  int k = (int)sx_conc(sx_int("components", 1, SX_TIER(2, 3))), kind = menuPick("kind");
  for (int i = 0; i < k; ++i) {
    g2o::EdgeSE2* c = new g2o::EdgeSE2;
    c->setVertex(0, g.from(i));
    c->setVertex(1, g.to(i));
    double x = sx_real("zx", -10, 10), y = sx_real("zy", -10, 10), t = sx_angle("zt", -1, 1);
    g2o::SE2 d(x, y, t);
    c->setMeasurement((g.from(i)->estimate().inverse() * g.to(i)->estimate()) * d.inverse());
    c->setInformation(menuInfo((kind + i) % 4));
    e.push_back(c);
    double q = sx_real("weight", 0.01, 10);
    w.push_back(q);
  }
  roundTrip<g2o::EdgeSE2, EdgeSE2Mixture>(g, e, w, [&](EdgeSE2Mixture& r) { r.setVertex(0, &g.a); r.setVertex(1, &g.b); });
}
SX_HARNESS(landmark) {
  Graph g;
  std::vector<g2o::EdgeSE2PointXY*> e;
  std::vector<double> w;
  int k = (int)sx_conc(sx_int("components", 1, 3)), kind = menuPick("kind");
  for (int i = 0; i < k; ++i) {
    g2o::EdgeSE2PointXY* c = new g2o::EdgeSE2PointXY;
    c->setVertex(0, g.from(i));
    c->setVertex(1, g.mark(i));
    double x = sx_real("zx", -10, 10), y = sx_real("zy", -10, 10);
    Eigen::Vector2d z(x, y);
    z += g.from(i)->estimate().inverse() * g.mark(i)->estimate();
    c->setMeasurement(z);
    c->setInformation(menuInfo((kind + i) % 4).topLeftCorner<2, 2>());
    e.push_back(c);
    double q = sx_real("weight", 0.01, 10);
    w.push_back(q);
  }
  roundTrip<g2o::EdgeSE2PointXY, EdgeSE2PointXYMixture>(g, e, w, [&](EdgeSE2PointXYMixture& r) { r.setVertex(0, &g.a); r.setVertex(1, &g.p); });
}
