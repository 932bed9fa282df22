// Models of the parts of libg2o that have no body in its headers.
#include <g2o/core/base_vertex.h>
#include <g2o/core/factory.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/types/slam2d/edge_se2.h>
#include <g2o/types/slam2d/edge_se2_pointxy.h>
#include <g2o/types/slam2d/vertex_point_xy.h>
#include <g2o/types/slam2d/vertex_se2.h>
#include <string>
#include <cmath>
extern "C" { void sx_unsupported(const char* m); }
namespace g2o {
HyperGraph::Vertex::Vertex(int id) : _id(id) {}
HyperGraph::Vertex::~Vertex() {}
HyperGraph::Edge::Edge(int id) : _id(id) {}
HyperGraph::Edge::~Edge() {}
void HyperGraph::Edge::resize(size_t n) { _vertices.resize(n, 0); }
extern "C" { HyperGraph::Vertex* sx_g2o_vertices[8]; int sx_g2o_n = 0; }
HyperGraph::Vertex* HyperGraph::vertex(int id) {
  for (int i = 0; i < sx_g2o_n; ++i) if (sx_g2o_vertices[i]->id() == id) return sx_g2o_vertices[i];
  return 0;
}
OptimizableGraph::Vertex::Vertex() : HyperGraph::Vertex(), _graph(0), _userData(0), _hessianIndex(-1), _fixed(false), _marginalized(false), _colInHessian(-1), _cacheContainer(0) {}
OptimizableGraph::Vertex::~Vertex() {}
bool OptimizableGraph::Vertex::setEstimateData(const double* e) { bool r = setEstimateDataImpl(e); updateCache(); return r; }
bool OptimizableGraph::Vertex::getEstimateData(double*) const { return false; }
int OptimizableGraph::Vertex::estimateDimension() const { return -1; }
bool OptimizableGraph::Vertex::setMinimalEstimateData(const double* e) { bool r = setMinimalEstimateDataImpl(e); updateCache(); return r; }
bool OptimizableGraph::Vertex::getMinimalEstimateData(double*) const { return false; }
int OptimizableGraph::Vertex::minimalEstimateDimension() const { return -1; }
void OptimizableGraph::Vertex::updateCache() {}
OptimizableGraph::Edge::Edge() : HyperGraph::Edge(), _dimension(-1), _level(0), _robustKernel(0), _internalId(0) {}
OptimizableGraph::Edge::~Edge() {}
bool OptimizableGraph::Edge::setMeasurementData(const double*) { return false; }
bool OptimizableGraph::Edge::getMeasurementData(double*) const { return false; }
int OptimizableGraph::Edge::measurementDimension() const { return -1; }
bool OptimizableGraph::Edge::setMeasurementFromState() { return false; }
bool OptimizableGraph::Edge::resolveCaches() { return true; }
JacobianWorkspace::JacobianWorkspace() : _maxNumVertices(-1), _maxDimension(-1) {}
JacobianWorkspace::~JacobianWorkspace() {}
void JacobianWorkspace::updateSize(int n, int d, bool) { if (n > _maxNumVertices) _maxNumVertices = n; if (d > _maxDimension) _maxDimension = d; }
bool JacobianWorkspace::allocate() {
  if (_maxNumVertices <= 0 || _maxDimension <= 0) return false;
  _workspace.resize(_maxNumVertices);
  for (auto& w : _workspace) { w.resize(_maxDimension); w.setZero(); }
  return true;
}
VertexSE2::VertexSE2() : BaseVertex<3, SE2>() {}
bool VertexSE2::read(std::istream&) { sx_unsupported("VertexSE2::read"); return false; }
bool VertexSE2::write(std::ostream&) const { sx_unsupported("VertexSE2::write"); return false; }
VertexPointXY::VertexPointXY() : BaseVertex<2, Vector2>() { _estimate.setZero(); }
bool VertexPointXY::read(std::istream&) { sx_unsupported("VertexPointXY::read"); return false; }
bool VertexPointXY::write(std::ostream&) const { sx_unsupported("VertexPointXY::write"); return false; }
EdgeSE2::EdgeSE2() : BaseBinaryEdge<3, SE2, VertexSE2, VertexSE2>() {}
bool EdgeSE2::read(std::istream&) { sx_unsupported("EdgeSE2::read"); return false; }
bool EdgeSE2::write(std::ostream&) const { sx_unsupported("EdgeSE2::write"); return false; }
void EdgeSE2::initialEstimate(const OptimizableGraph::VertexSet&, OptimizableGraph::Vertex*) { sx_unsupported("EdgeSE2::initialEstimate"); }
void EdgeSE2::linearizeOplus() {
  const VertexSE2* vi = static_cast<const VertexSE2*>(_vertices[0]);
  const VertexSE2* vj = static_cast<const VertexSE2*>(_vertices[1]);
  double th = vi->estimate().rotation().angle(), s = std::sin(th), c = std::cos(th);
  double dx = vj->estimate().translation()[0] - vi->estimate().translation()[0], dy = vj->estimate().translation()[1] - vi->estimate().translation()[1];
  double A[3][3] = {{-c, -s, -s * dx + c * dy}, {s, -c, -c * dx - s * dy}, {0, 0, -1}}, B[3][3] = {{c, s, 0}, {-s, c, 0}, {0, 0, 1}};
  double z = _inverseMeasurement.rotation().angle(), zs = std::sin(z), zc = std::cos(z);
  double Z[3][3] = {{zc, -zs, 0}, {zs, zc, 0}, {0, 0, 1}};
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double x = 0, y = 0;
      for (int k = 0; k < 3; ++k) { x += Z[i][k] * A[k][j]; y += Z[i][k] * B[k][j]; }
      _jacobianOplusXi(i, j) = x; _jacobianOplusXj(i, j) = y;
    }
}
EdgeSE2PointXY::EdgeSE2PointXY() : BaseBinaryEdge<2, Vector2, VertexSE2, VertexPointXY>() {}
bool EdgeSE2PointXY::read(std::istream&) { sx_unsupported("EdgeSE2PointXY::read"); return false; }
bool EdgeSE2PointXY::write(std::ostream&) const { sx_unsupported("EdgeSE2PointXY::write"); return false; }
void EdgeSE2PointXY::initialEstimate(const OptimizableGraph::VertexSet&, OptimizableGraph::Vertex*) { sx_unsupported("EdgeSE2PointXY::initialEstimate"); }
void EdgeSE2PointXY::linearizeOplus() {
  const VertexSE2* vi = static_cast<const VertexSE2*>(_vertices[0]);
  const VertexPointXY* vj = static_cast<const VertexPointXY*>(_vertices[1]);
  double th = vi->estimate().rotation().angle(), s = std::sin(th), c = std::cos(th);
  double dx = vj->estimate()[0] - vi->estimate().translation()[0], dy = vj->estimate()[1] - vi->estimate().translation()[1];
  _jacobianOplusXi(0, 0) = -c; _jacobianOplusXi(0, 1) = -s; _jacobianOplusXi(0, 2) = c * dy - s * dx;
  _jacobianOplusXi(1, 0) = s; _jacobianOplusXi(1, 1) = -c; _jacobianOplusXi(1, 2) = -s * dy - c * dx;
  _jacobianOplusXj(0, 0) = c; _jacobianOplusXj(0, 1) = s;
  _jacobianOplusXj(1, 0) = -s; _jacobianOplusXj(1, 1) = c;
}
static char sx_factory[sizeof(Factory)];
Factory* Factory::instance() { return reinterpret_cast<Factory*>(sx_factory); }
const std::string& Factory::tag(const HyperGraph::HyperGraphElement* e) const {
  static std::string se2("EDGE_SE2"), xy("EDGE_SE2_XY"), none("");
  if (dynamic_cast<const EdgeSE2*>(e)) return se2;
  if (dynamic_cast<const EdgeSE2PointXY*>(e)) return xy;
  return none;
}
}  // namespace g2o
