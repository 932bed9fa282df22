// Streams and graphs that work in both builds of a harness.
#pragma once
#include "sx.h"
#include <sstream>
#include <g2o/core/optimizable_graph.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/types/slam2d/edge_se2.h>
#include <g2o/types/slam2d/edge_se2_pointxy.h>
#include <g2o/types/slam2d/vertex_point_xy.h>
#include <g2o/types/slam2d/vertex_se2.h>
#ifdef SX_SYMBOLIC
extern "C" { void* sx_stream_out(); void* sx_stream_in(); unsigned sx_stream_rest(); extern g2o::HyperGraph::Vertex* sx_g2o_vertices[8]; extern int sx_g2o_n; }
static inline std::ostream& sxOut() { return *(std::ostream*)sx_stream_out(); }
static inline std::istream& sxIn() { return *(std::istream*)sx_stream_in(); }
static inline bool sxConsumed() { return sx_stream_rest() == 0; }
template <class V> struct InGraph : V {
  explicit InGraph(int id) { this->setId(id); static char g[8]; this->_graph = (g2o::OptimizableGraph*)g; sx_g2o_vertices[sx_g2o_n++] = this; }
};
#else
static inline std::stringstream& sxSS() { static std::stringstream s; return s; }
static inline std::ostream& sxOut() { sxSS().str(""); sxSS().clear(); sxSS().precision(17); return sxSS(); }
static inline std::istream& sxIn() { static std::istringstream i; i.str(sxSS().str()); i.clear(); return i; }
static inline std::istream& sxInAgain();
static inline bool sxConsumed() { return true; }
static inline g2o::OptimizableGraph& sxGraph() { static g2o::OptimizableGraph* g = new g2o::OptimizableGraph; return *g; }
template <class V> struct InGraph : V {
  explicit InGraph(int id) { this->setId(id); sxGraph().addVertex(this); }
};
#endif
static inline g2o::SE2 sxPose(const char* x, const char* y, const char* t) {
  double a = sx_real(x, -100, 100), b = sx_real(y, -100, 100), c = sx_angle(t, -3.1, 3.1);
  return g2o::SE2(a, b, c);
}
// linearise through the optimiser's interface; J(i) is the column-major Jacobian
struct SxJac {
  g2o::JacobianWorkspace ws;
  SxJac(g2o::OptimizableGraph::Edge* e, int n, int dim) { ws.updateSize(n, dim, false); ws.allocate(); e->linearizeOplus(ws); }
  double operator()(int v, int r, int c, int rows) { double* p = ws.workspaceForVertex(v); return p[c * rows + r]; }
};
