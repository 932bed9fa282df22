// Builds cells through their public interface.
#pragma once
#include "eig_model.h"
#include <ndt_gslam/ndt/ndt_cell.h>
typedef slamuk::NDTCell C;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
// six points m +- r_k V e_k plus extra points at m: the sample mean is m, the
// regularised covariance is V diag((1+2 r_k^2)/n (n-1)/n) V^T
static inline void addStar(C& c, const V3& m, const M3& V, const double* r, int extra) {
  for (int k = 0; k < 3; ++k) {
    V3 o = V.col(k) * r[k];
    c.addPoint(m + o);
    c.addPoint(m - o);
  }
  for (int i = 0; i < extra; ++i) c.addPoint(m);
}
// the factors the definition of the cell's covariance uses
static inline double norm(int n) { return static_cast<double>(n - 1) / static_cast<double>(n); }
static inline double starEig(double r, int n) { return (1 + 2 * r * r) / n * norm(n); }
// small eigenvalues are raised to a hundredth of the largest
static inline M3 conditioned(const M3& A) {
  Eigen::SelfAdjointEigenSolver<M3> es(A);
  double d[3]; double v[3][3];
  for (int k = 0; k < 3; ++k) { d[k] = es.eigenvalues()(k); for (int i = 0; i < 3; ++i) v[i][k] = es.eigenvectors()(i, k); }
  double f = 0.01 * d[2];
  M3 E;
  for (int k = 0; k < 2; ++k) if (d[k] < f) d[k] = f;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double x = 0; for (int k = 0; k < 3; ++k) x += v[i][k] * d[k] * v[j][k]; E(i, j) = x; }
  return E;
}
static inline C star(const V3& m, const double* r, int extra) {
  C c;
  addStar(c, m, M3::Identity(), r, extra);
  c.computeGaussian();
  return c;
}
static inline V3 symVec(double lim, bool planar) {
  double x = sx_real("x", -lim, lim); double y = sx_real("y", -lim, lim);
  double z = planar ? 0 : sx_real("z", -lim, lim);
  return V3(x, y, z);
}
static inline void eqV(const V3& a, const V3& b, const char* l) { for (int i = 0; i < 3; ++i) sx_eq(a(i), b(i), 1e-6, l); }
static inline void eqM(const M3& a, const M3& b, double tol, const char* l) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sx_eq(a(i, j), b(i, j), tol, l); }
static inline void inverse(const C& c, const char* l) { M3 P = c.getCov() * c.getICov(); eqM(P, M3::Identity(), 1e-6, l); }

// sample statistics of two groups taken together
static inline V3 pooledMean(const V3& a, int na, const V3& b, int nb) {
  V3 r;
  for (int i = 0; i < 3; ++i) r(i) = (a(i) * na + b(i) * nb) / (na + nb);
  return r;
}
static inline M3 pooledCov(const M3& A, const V3& a, int na, const M3& B, const V3& b, int nb) {
  M3 r;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    double di = a(i) - b(i); double dj = a(j) - b(j);
    r(i, j) = ((na - 1) * A(i, j) + (nb - 1) * B(i, j) + di * dj * (double(na) * nb / (na + nb))) / (na + nb - 1);
  }
  return r;
}
struct State { V3 mean, centroid; M3 cov, icov; bool g; size_t n; float o; };
static inline State state(const C& c) {
  State s; s.mean = c.getMean(); s.centroid = c.getCentroid(); s.cov = c.getCov(); s.icov = c.getICov();
  s.g = c.hasGaussian(); s.n = c.points(); s.o = c.getOccupancyRaw();
  return s;
}
static inline void sameGaussian(const C& c, const State& s, const char* l) {
  eqV(c.getMean(), s.mean, l);
  eqM(c.getCov(), s.cov, 1e-9, l);
  eqM(c.getICov(), s.icov, 1e-9, l);
  sx_check(c.points() == s.n, l);
}
