//@ bound: grids of 3x3 to 5x3 cells of size 0.5 or 1, all filled or all empty; start at one of 9 offsets in a cell (quick) / any multiple of 1/8 (thorough); end any multiple of 1/64 within +-4 cells
//@ bound: grids of 6x2 (quick) / 8x2 (thorough) cells in all four orientations, rays up to 8 cells long
//@ bound: grids of 6x6 (quick) / 8x8 (thorough) cells, rays up to 5 / 7 cells along a diagonal and up to half a cell off it, in all four directions
//@ bound: axis aligned, sub-cell and zero-length rays from any point; rays starting outside
//@ assume: arithmetic is over the reals (cell sizes are powers of two); operator new does not fail
//@ harness: ray shards=8 budget=300 tbudget=850 expect=first,on-ray,neighbour,distinct,end
//@ harness: lengthy shards=8 budget=300 tbudget=850 expect=on-ray,end
//@ harness: diagonal shards=8 budget=300 tbudget=850 expect=on-ray,end
//@ harness: shorts budget=100 expect=short,zero
//@ harness: outside budget=100 expect=outside
#include "grid_common.h"
// column and row of the cell a pointer belongs to
static bool where(Grid& g, double cs, int l, int r, int u, int d, Cell* c, int& x, int& y) {
  for (x = -l; x <= r; ++x) for (y = -d; y <= u; ++y)
    if (g.cellExists(at(x, y, cs)) && g.getCellPtr(at(x, y, cs)) == c) return true;
  return false;
}
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a < b ? b : a; }
// the cells must lie on the segment, be consecutive neighbours, distinct,
// start in the cell of the start and end near the cell of the end
static void verify(Grid& g, double cs, int l, int r, int u, int d, Pt s, Pt e, const std::vector<Cell*>& res) {
  sx_check(!res.empty(), "nonempty");
  if (res.empty()) return;
  sx_check(res[0] == g.getCellPtr(s), "first");
  double dx = e(0) - s(0), dy = e(1) - s(1);
  int px = 0, py = 0, qx = 0, qy = 0;
  for (size_t i = 0; i < res.size(); ++i) {
    bool f = where(g, cs, l, r, u, d, res[i], qx, qy);
    sx_check(f, "of-grid");
    if (!f) return;
    // separating axes of the segment and the closed square
    double x0 = (qx - 0.5) * cs, x1 = (qx + 0.5) * cs, y0 = (qy - 0.5) * cs, y1 = (qy + 0.5) * cs;
    sx_check(mn(s(0), e(0)) <= x1 && mx(s(0), e(0)) >= x0 && mn(s(1), e(1)) <= y1 && mx(s(1), e(1)) >= y0, "in-box");
    double cr = dx * (qy * cs - s(1)) - dy * (qx * cs - s(0));
    double lim = 0.5 * cs * (std::fabs(dx) + std::fabs(dy));
    sx_check(cr <= lim && cr >= -lim, "on-ray");
    if (i > 0) {
      sx_check(qx - px <= 1 && px - qx <= 1 && qy - py <= 1 && py - qy <= 1, "neighbour");
      for (size_t k = 0; k < i; ++k) sx_check(res[k] != res[i], "distinct");
      if (px != qx && py != qy) {
        // a corner was cut: the cell left out is crossed for half a cell at most
        double X = (px + (qx - px) * 0.5) * cs, Y = (py + (qy - py) * 0.5) * cs;
        double off = std::fabs((s(0) - X) * dy + dx * (Y - s(1)));
        sx_check(off <= cs / 2 * mn(std::fabs(dx), std::fabs(dy)), "corner");
      }
    }
    px = qx; py = qy;
  }
  // the last cell: at the border, or its square is within one and a half cells
  // of the end along each axis
  bool border = qx == -l || qx == r || qy == -d || qy == u;
  bool leaves = !g.isInside(e);
  double gx = mx(mx((qx - 0.5) * cs - e(0), e(0) - (qx + 0.5) * cs), 0), gy = mx(mx((qy - 0.5) * cs - e(1), e(1) - (qy + 0.5) * cs), 0);
  bool near = gx < 2 * cs && gy < 2 * cs;
  sx_check(near || (leaves && border), "end");
}
SX_HARNESS(ray) {
  int shape = (int)sx_conc(sx_int("shape", 0, 1));
  double cs = shape == 0 ? 1.0 : 0.5;
  int l = 1 + shape, r = 2 - shape, u = 1, d = 1;
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, shape == 0 ? 1 : 0, l, r, u, d);
  double sx, sy;
  if (SX_THOROUGH) {
    sx = sx_conc(sx_int("sx", -6, 6)) * cs / 4; sy = sx_conc(sx_int("sy", -6, 6)) * cs / 4;
    sx_assume(sy >= -1.5 * cs && sy <= 1.5 * cs && sx <= (r + 0.5) * cs);
  } else {
    sx = sx_conc(sx_int("sx", -1, 1)) * 3 * cs / 8; sy = sx_conc(sx_int("sy", -1, 1)) * 7 * cs / 8;
  }
  Pt s(sx, sy);
  if (!g.isInside(s)) return;
  double ex = sx_fix("ex", -256, 256, -6); double ey = sx_fix("ey", -256, 256, -6);
  sx_assume(ex >= -4 * cs && ex <= 4 * cs && ey >= -4 * cs && ey <= 4 * cs);
  // keep away from the (measured, documented) rounding of the sampled step
  Pt e(ex, ey);
  size_t before = held(g);
  auto res = g.rayTrace(s, e);
  extents(g, l, r, u, d, "extents");
  sx_check(held(g) >= before && held(g) == g.validCells(), "created");
  verify(g, cs, l, r, u, d, s, e, res);
}
SX_HARNESS(lengthy) {
  double cs = 1.0;
  bool vertical = sx_bool("vertical"), back = sx_bool("back");
  const int N = SX_TIER(5, 7);
  int l = 0, r = 0, u = 0, d = 0;
  (vertical ? (back ? d : u) : (back ? l : r)) = N;
  (vertical ? r : u) = 1;
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, 2, l, r, u, d);
  double len = sx_fix("len", 0, 64 * 8, -6); double side = sx_fix("side", -64, 128, -6);
  double sgn = back ? -1 : 1;
  Pt s = vertical ? Pt(0.25, 0.125) : Pt(-0.25, 0.375);
  Pt e = vertical ? Pt(side, sgn * len) : Pt(sgn * len, side);
  auto res = g.rayTrace(s, e);
  sx_check(held(g) == g.validCells(), "created");
  verify(g, cs, l, r, u, d, s, e, res);
}
SX_HARNESS(diagonal) {
  double cs = 1.0;
  bool fx = sx_bool("fx"), fy = sx_bool("fy");
  const int N = SX_TIER(5, 7);
  int l = fx ? N : 0, r = fx ? 0 : N, u = fy ? 0 : N, d = fy ? N : 0;
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, 1, l, r, u, d);
  double len = sx_fix("len", 32, 16 * N, -4); double side = sx_fix("side", -8, 8, -4);
  Pt s(fx ? -0.125 : 0.125, fy ? 0.25 : -0.25);
  Pt e(s(0) + (fx ? -len : len), s(1) + (fy ? -1 : 1) * (len + side));
  auto res = g.rayTrace(s, e);
  sx_check(held(g) == g.validCells(), "created");
  verify(g, cs, l, r, u, d, s, e, res);
}
SX_HARNESS(shorts) {
  double cs = sx_bool("cs") ? 1.0 : 0.5;
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, 1, 1, 1, 1);
  fill(g, cs, sx_bool("full") ? 0 : 1, 1, 1, 1, 1);
  double x = sx_fix("x", -96, 96, -6); double y = sx_fix("y", -96, 96, -6);
  Pt s(x, y);
  sx_assume(x > -1.5 * cs && x < 1.5 * cs && y > -1.5 * cs && y < 1.5 * cs);
  double ex = sx_fix("dx", -63, 63, -6); double ey = sx_fix("dy", -63, 63, -6);
  sx_assume(ex > -cs && ex < cs && ey > -cs && ey < cs);
  bool zero = sx_bool("zero");
  if (zero) { ex = 0; ey = 0; }
  auto res = g.rayTrace(s, Pt(x + ex, y + ey));
  sx_check(res.size() >= 1, zero ? "zero" : "short");
  if (zero) sx_check(res.size() == 1, "zero-one");
  if (res.size() >= 1) sx_check(res[0] == g.getCellPtr(s), "start");
  // fewer than one cell long: at most the start's cell and its neighbours
  sx_check(res.size() <= 3, "short-count");
  for (size_t i = 1; i < res.size(); ++i) {
    bool known = false;
    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b)
      if (g.cellExists(at(a, b, cs)) && g.getCellPtr(at(a, b, cs)) == res[i]) known = true;
    sx_check(known && res[i] != res[0], "short-known");
  }
}
SX_HARNESS(outside) {
  double cs = 1.0;
  Grid g; g.setCellSize(1.0f);
  extend(g, cs, 1, 1, 1, 1); fill(g, cs, 2, 1, 1, 1, 1);
  double x = sx_fix("x", -640, 640, -6); double y = sx_fix("y", -640, 640, -6);
  sx_assume(x < -1.5 || x > 1.5 || y < -1.5 || y > 1.5);
  double ex = sx_fix("ex", -640, 640, -6); double ey = sx_fix("ey", -640, 640, -6);
  size_t n = held(g);
  auto res = g.rayTrace(Pt(x, y), Pt(ex, ey));
  sx_check(res.empty() && held(g) == n, "outside");
}
