// Helpers for the voxel grid harnesses: a small cell type, symbolic extents.
#pragma once
#include "sx.h"
#include <ndt_gslam/ndt/voxel_grid2d.h>
#include <vector>
struct Cell {
  double v;
  Cell() : v(0) {}
  explicit Cell(double x) : v(x) {}
  Cell& operator+=(const Cell& o) { v += o.v; return *this; }
};
typedef slamuk::VoxelGrid2D<Cell> Grid;
typedef Eigen::Vector2d Pt;
static inline double cellSize(int k) { return k == 0 ? 0.25 : k == 1 ? 0.5 : k == 2 ? 1.0 : 2.0; }
// grows an empty grid to l,r,u,d cells around the origin
static inline void extend(Grid& g, double cs, int l, int r, int u, int d) {
  g.enlarge((float)(-l * cs), (float)(-d * cs), (float)(r * cs), (float)(u * cs));
}
static inline void extents(const Grid& g, int l, int r, int u, int d, const char* label) {
  sx_check(g.left() == (size_t)l && g.right() == (size_t)r && g.up() == (size_t)u && g.down() == (size_t)d &&
           g.width() == (size_t)(l + r + 1) && g.height() == (size_t)(u + d + 1), label);
}
static inline Pt at(int x, int y, double cs) { return Pt(x * cs, y * cs); }
// number of slots the grid really holds
static inline size_t slots(const Grid& g) { size_t n = 0; for (auto it = g.begin(); it != g.end(); ++it) ++n; return n; }
static inline size_t held(const Grid& g) { size_t n = 0; for (auto it = g.begin(); it != g.end(); ++it) if (it->get()) ++n; return n; }
// value stored at cell (x,y) relative to the origin cell; -1 if none
static inline double val(const Grid& g, int x, int y, double cs) {
  Pt p = at(x, y, cs);
  if (!g.cellExists(p)) return -1;
  return g.getCellPtr(p)->v;
}
// fills the cells of the given extents with distinct tags following a pattern:
// 0 all, 1 none, 2 checkerboard, 3 all but the last column and the first row
static inline double tagOf(int x, int y) { return 100 + x * 10 + y; }
static inline bool filled(int pat, int x, int y, int r, int u) {
  if (pat == 0) return true;
  if (pat == 1) return false;
  if (pat == 2) return ((x + y) & 1) == 0;
  return x != r && y != u;
}
static inline void fill(Grid& g, double cs, int pat, int l, int r, int u, int d) {
  g.clear();
  for (int x = -l; x <= r; ++x) for (int y = -d; y <= u; ++y)
    if (filled(pat, x, y, r, u)) g.addCell(at(x, y, cs), Cell(tagOf(x, y)), false);
}
