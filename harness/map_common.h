// A cell type that records what the map does with it, and points with tags.
#pragma once
#include "sx.h"
#include <ndt_gslam/ndt/ndt_grid2d.h>
#include <iomanip>
#include <vector>
struct Probe {
  typedef Eigen::Vector3d Vector;
  typedef Eigen::Matrix3d Matrix;
  typedef Eigen::Transform<double, 3, Eigen::Affine> Transform;
  std::vector<Vector> pts;  // z is the tag of the point
  Vector mean;
  bool gauss;
  double occ;
  int rays;
  Probe() : mean(0, 0, 0), gauss(false), occ(0), rays(0) {}
  void average() {
    mean = Vector(0, 0, 0);
    for (size_t i = 0; i < pts.size(); ++i) { mean(0) += pts[i](0); mean(1) += pts[i](1); }
    if (!pts.empty()) mean /= (double)pts.size();
  }
  void addPoint(const Vector& p) { pts.push_back(p); }
  void computeGaussian() { if (pts.size() >= 2) { average(); gauss = true; } }
  Probe& operator+=(const Probe& o) {
    pts.insert(pts.end(), o.pts.begin(), o.pts.end());
    gauss = gauss || o.gauss;
    if (gauss) average();
    return *this;
  }
  void transform(const Transform& t) {
    for (size_t i = 0; i < pts.size(); ++i) {
      double x = t.matrix()(0, 0) * pts[i](0) + t.matrix()(0, 1) * pts[i](1) + t.matrix()(0, 3);
      double y = t.matrix()(1, 0) * pts[i](0) + t.matrix()(1, 1) * pts[i](1) + t.matrix()(1, 3);
      pts[i](0) = x; pts[i](1) = y;
    }
    if (gauss) average();
  }
  bool hasGaussian() const { return gauss; }
  const Vector& getMean() const { return mean; }
  void setMean(const Vector& m) {
    for (size_t i = 0; i < pts.size(); ++i) { pts[i](0) += m(0) - mean(0); pts[i](1) += m(1) - mean(1); }
    mean = m;
  }
  size_t points() const { return pts.size(); }
  double getOccupancyRaw() const { return occ; }
  void updateOccupancy(const Vector&, const Vector&, size_t) { ++rays; }
  slamuk::NDTCellMsg serialize() const { slamuk::NDTCellMsg m; m.mean_ = mean; m.occupancy_ = occ; return m; }
};
typedef pcl::PointXYZ P3;
typedef pcl::PointCloud<P3> Cloud;
typedef slamuk::NDTGrid2D<Probe, P3> Map;
typedef Eigen::Vector2d V2;
// a coordinate that never lies on the border of a cell of size 0.5 (or 1)
static inline double coord(const char* n, int lim) { return sx_fix(n, -lim, lim, -5) + 1.0 / 64; }
static inline bool has(const Probe& c, int tag) {
  for (size_t i = 0; i < c.pts.size(); ++i) if (c.pts[i](2) == tag) return true;
  return false;
}
static inline long cellOf(double v, double cs) { return (long)std::floor(v / cs + 0.5); }
// not closer than 1e-6 to a border
static inline bool clear_of_borders(double v, double cs) {
  double f = v / cs + 0.5, d = f - std::floor(f);
  return d > 1e-6 && d < 1 - 1e-6;
}
