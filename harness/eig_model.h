// Contract for Eigen::SelfAdjointEigenSolver in the symbolic build.
//  3x3: a decomposition V diag(d) V^T stated by the harness (sx_eig3), if it is
//       identical to the matrix; otherwise by structure, see sx_eig3_struct.
//  2x2: eigenvectors are a rotation by a fresh angle (either orientation),
//       eigenvalues ascending, A = V diag(d) V^T.
// Natively Eigen itself runs.
#pragma once
#include "sx.h"
#include <Eigen/Dense>
struct SxEig3 { double V[3][3]; double d[3]; };
#ifdef SX_SYMBOLIC
extern "C" { double sx_fmax(double, double); double sx_fmin(double, double); extern SxEig3* sx_eig3_ptr; double sx_fresh(const char* n); bool sx_identical(double a, double b); bool sx_is_const(double); double sx_name(double); bool sx_positive(double); void sx_rule(double); void sx_unsupported(const char* m); void sx_axiom(bool); void sx_unit(double, double); }
// Contract by the structure of the matrix A (entries get names first, so that
// the rules below are small):
//  diagonal: exact;
//  one coupled pair: plane rotation (c,s) and eigenvalues l0 <= l1 with
//   A (c,s) = l0 (c,s), l0 + l1 = trace, l0 l1 = det. The rules are the Groebner
//   basis of these equations;
//  otherwise: orthonormal V, ascending d, A = V diag(d) V^T, Gershgorin's bounds.
// The same matrix gets the same decomposition (Eigen is deterministic).
struct SxEigMemo { double k[6]; double v[12]; };
extern "C" { extern SxEigMemo sx_eig_memo[8]; extern int sx_eig_memo_n; }
static inline double* sx_eig_find(const double* k) {
  for (int t = 0; t < sx_eig_memo_n; ++t) {
    bool same = true;
    for (int i = 0; i < 6; ++i) { bool e = sx_identical(sx_eig_memo[t].k[i], k[i]); if (!e) { same = false; break; } }
    if (same) return sx_eig_memo[t].v;
  }
  return nullptr;
}
static inline void sx_eig_put(const double* k, const double (*V)[3], const double* d) {
  if (sx_eig_memo_n >= 8) return;
  SxEigMemo& m = sx_eig_memo[sx_eig_memo_n++];
  for (int i = 0; i < 6; ++i) m.k[i] = k[i];
  for (int k = 0; k < 3; ++k) { m.v[k] = d[k]; for (int i = 0; i < 3; ++i) m.v[3 + 3 * k + i] = V[i][k]; }
}
// a matrix that the eigenvectors of an earlier one diagonalise
static inline bool sx_eig_rediagonal(const double* k, double (*V)[3], double* d) {
  const double A[3][3] = {{k[0], k[1], k[2]}, {k[1], k[3], k[4]}, {k[2], k[4], k[5]}};
  for (int t = 0; t < sx_eig_memo_n; ++t) {
    const double* w = sx_eig_memo[t].v + 3;
    double D[3][3];
    bool diag = true;
    for (int i = 0; i < 3 && diag; ++i)
      for (int j = 0; j <= i && diag; ++j) {
        double x = 0;
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) x += w[3 * i + a] * A[a][b] * w[3 * j + b];
        D[i][j] = x;
        if (i != j) { bool e = sx_identical(x, 0); if (!e) diag = false; }
      }
    if (!diag) continue;
    for (int i = 0; i < 3; ++i) { d[i] = D[i][i]; for (int a = 0; a < 3; ++a) V[a][i] = w[3 * i + a]; }
    return true;
  }
  return false;
}
static inline void sx_eig3_struct(double a00, double a10, double a20, double a11, double a21, double a22, SxEig3& o) {
  double d[3] = {a00, a11, a22};
  double V[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  double key[6] = {a00, a10, a20, a11, a21, a22};
  bool z10 = sx_identical(a10, 0), z20 = sx_identical(a20, 0), z21 = sx_identical(a21, 0);
  int off = (z10 ? 0 : 1) + (z20 ? 0 : 1) + (z21 ? 0 : 1);
  if (double* f = sx_eig_find(key)) {
    for (int k = 0; k < 3; ++k) { d[k] = f[k]; for (int i = 0; i < 3; ++i) V[i][k] = f[3 + 3 * k + i]; }
  } else if (sx_eig_rediagonal(key, V, d)) {
    sx_eig_put(key, V, d);
  } else if (off == 0) {
    sx_eig_put(key, V, d);
  } else if (off == 1) {
    int i = z21 ? 0 : 1, j = z10 ? 2 : 1;
    double p0 = d[i], q0 = d[j], b0 = z10 ? (z20 ? a21 : a20) : a10;
    bool pos = sx_positive(p0) && sx_positive(q0) && sx_positive(p0 * q0 - b0 * b0);
    double p = sx_name(p0), q = sx_name(q0), b = sx_name(b0);
    double c = sx_fresh("eigc"), s = sx_fresh("eigs"), l0 = sx_fresh("eig0"), l1 = sx_fresh("eig1");
    sx_rule(s * s + c * c - 1);
    sx_rule(l0 + l1 - p - q);
    sx_rule(c * l0 - b * s - p * c);
    sx_rule(s * l0 - b * c - q * s);
    sx_rule(l0 * l0 - l0 * (p + q) + p * q - b * b);
    sx_rule(2 * b * c * s + c * c * (p - q) - l0 + q);
    sx_rule(2 * b * c * c - b - c * s * (p - q));
    sx_axiom(l0 <= l1);
    sx_axiom((l0 <= p) & (l0 <= q) & (c >= -1) & (c <= 1) & (s >= -1) & (s <= 1));
    if (pos) { sx_axiom(l0 > 0); sx_axiom(p * q - b * b > 0); }
    d[i] = l0; d[j] = l1;
    V[i][i] = c; V[j][i] = s; V[i][j] = -s; V[j][j] = c;
    sx_eig_put(key, V, d);
  } else {
    double a[3][3] = {{a00, a10, a20}, {a10, a11, a21}, {a20, a21, a22}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) a[i][j] = a[j][i] = sx_name(a[i][j]);
    for (int k = 0; k < 3; ++k) { for (int i = 0; i < 3; ++i) V[i][k] = sx_fresh("eigv"); d[k] = sx_fresh("eigd"); }
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j <= i; ++j) {
        double v = -a[i][j];
        for (int k = 0; k < 3; ++k) v += V[i][k] * d[k] * V[j][k];
        sx_rule(v);
      }
    sx_axiom(d[0] <= d[1]);
    sx_axiom(d[1] <= d[2]);
    sx_axiom(d[0] + d[1] + d[2] == a[0][0] + a[1][1] + a[2][2]);
    double lo[3], hi[3];
    for (int i = 0; i < 3; ++i) {
      double s = sx_fresh("gersh");
      double x = a[i][(i + 1) % 3], y = a[i][(i + 2) % 3];
      for (int e = 0; e < 4; ++e) sx_axiom(s >= (e & 1 ? x : -x) + (e & 2 ? y : -y));
      sx_axiom((s == x + y) | (s == x - y) | (s == y - x) | (s == -x - y));
      lo[i] = a[i][i] - s; hi[i] = a[i][i] + s;
    }
    sx_axiom((d[0] >= lo[0]) | (d[0] >= lo[1]) | (d[0] >= lo[2]));
    sx_axiom((d[2] <= hi[0]) | (d[2] <= hi[1]) | (d[2] <= hi[2]));
    sx_eig_put(key, V, d);
    for (int k = 0; k < 3; ++k) { o.d[k] = d[k]; for (int i = 0; i < 3; ++i) o.V[i][k] = V[i][k]; }
    return;
  }
  int n[3] = {0, 1, 2};
  for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y)
    if (d[n[y + 1]] < d[n[y]]) { int w = n[y]; n[y] = n[y + 1]; n[y + 1] = w; }
  for (int k = 0; k < 3; ++k) { o.d[k] = d[n[k]]; for (int i = 0; i < 3; ++i) o.V[i][k] = V[i][n[k]]; }
}
namespace Eigen {
namespace internal {  // the rotation of a rigid transform is its linear part
template <> struct transform_rotation_impl<Affine> {
  template <typename T> static inline typename T::LinearMatrixType run(const T& t) {
    typename T::LinearMatrixType R = t.linear();
    for (int i = 0; i < R.rows(); ++i)
      for (int j = 0; j <= i; ++j) {
        double v = 0;
        for (int k = 0; k < R.cols(); ++k) v += R(i, k) * R(j, k);
        if (!sx_identical(v, i == j)) sx_unsupported("rotation of a transform that is not rigid");
      }
    return R;
  }
};
}
#ifdef SX_MAX_TERM
namespace internal {  // maxCoeff(), minCoeff(): one term instead of a path per order
template <> inline double scalar_max_op<double, double, PropagateFast>::operator()(const double& a, const double& b) const { return sx_fmax(a, b); }
template <> inline double scalar_min_op<double, double, PropagateFast>::operator()(const double& a, const double& b) const { return sx_fmin(a, b); }
}
#endif
template <> template <> inline SelfAdjointEigenSolver<Matrix3d>& SelfAdjointEigenSolver<Matrix3d>::compute<Matrix3d>(const EigenBase<Matrix3d>& e, int opt) {
  const Matrix3d& A = e.derived();
  SxEig3* g = sx_eig3_ptr;
  SxEig3 own;
  if (g) {
    bool same = true;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j <= i; ++j) {
        double v = 0;
        for (int k = 0; k < 3; ++k) v += g->V[i][k] * g->d[k] * g->V[j][k];
        double w = A(i, j);
        if (!sx_identical(v, w)) same = false;
      }
    if (same) { double k[6] = {A(0, 0), A(1, 0), A(2, 0), A(1, 1), A(2, 1), A(2, 2)}; sx_eig_put(k, g->V, g->d); }
    else g = nullptr;
  }
  if (!g) {
    bool constant = true;
    for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) if (!sx_is_const(A(i, j))) constant = false;
    if (constant) {  // a concrete matrix: Eigen's own algorithm (other storage order, not specialised here)
      typedef Matrix<double, 3, 3, RowMajor> RM;
      RM R = A;
      SelfAdjointEigenSolver<RM> es(R);
      for (int k = 0; k < 3; ++k) { own.d[k] = es.eigenvalues()(k); for (int i = 0; i < 3; ++i) own.V[i][k] = es.eigenvectors()(i, k); }
    } else {
      sx_eig3_struct(A(0, 0), A(1, 0), A(2, 0), A(1, 1), A(2, 1), A(2, 2), own);
    }
    g = &own;
  }
  for (int k = 0; k < 3; ++k) {
    m_eivalues(k) = g->d[k];
    for (int i = 0; i < 3; ++i) m_eivec(i, k) = g->V[i][k];
  }
  m_info = Success; m_isInitialized = true; m_eigenvectorsOk = opt == ComputeEigenvectors;
  return *this;
}
template <> template <> inline SelfAdjointEigenSolver<Matrix2d>& SelfAdjointEigenSolver<Matrix2d>::compute<Matrix2d>(const EigenBase<Matrix2d>& e, int opt) {
  const Matrix2d& A = e.derived();
  double a = A(0, 0), b = A(1, 0), d = A(1, 1);
  double c = sx_fresh("eigc"), s = sx_fresh("eigs"), l0 = sx_fresh("eig0"), l1 = sx_fresh("eig1");
  sx_unit(c, s);
  sx_axiom(l0 <= l1);
  sx_axiom(l0 + l1 == a + d);
  sx_axiom(a == c * c * l0 + s * s * l1);
  sx_axiom(d == s * s * l0 + c * c * l1);
  sx_axiom(b == c * s * (l0 - l1));
  m_eivalues(0) = l0; m_eivalues(1) = l1;
  m_eivec(0, 0) = c; m_eivec(1, 0) = s; m_eivec(0, 1) = -s; m_eivec(1, 1) = c;
  m_info = Success; m_isInitialized = true; m_eigenvectorsOk = opt == ComputeEigenvectors;
  return *this;
}
}
static inline void sx_eig3(SxEig3* p) { sx_eig3_ptr = p; }
#else
static inline void sx_eig3(SxEig3*) {}
#endif
