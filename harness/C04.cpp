//@ bound: cell sizes 0.25, 0.5, 1, 2; every extent of 0-1 (quick) / 0-2 (thorough) cells in each of the four directions; points any multiple of 1/64 within +-4 cells
//@ bound: growth: single points within +-4 cells of an empty grid
//@ assume: coordinates are exact (cell sizes are powers of two); operator new does not fail
//@ harness: inside budget=200 expect=in,out,addr,elsewhere,removed
//@ harness: grow budget=100 expect=fit,kept,back
//@ harness: store budget=100 expect=merged,replaced,index
//@ harness: centre budget=60 expect=centre
#include "grid_common.h"
static double coord(const char* n) { return sx_fix(n, -8 * 64, 8 * 64, -6); }
SX_HARNESS(inside) {
  int k = (int)sx_conc(sx_int("cs", 0, 3));
  double cs = cellSize(k);
  int M = SX_TIER(1, 2);
  int l = (int)sx_conc(sx_int("l", 0, M)); int r = (int)sx_conc(sx_int("r", 0, M));
  int u = (int)sx_conc(sx_int("u", 0, M)); int d = (int)sx_conc(sx_int("d", 0, M));
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  extents(g, l, r, u, d, "extents");
  sx_check(slots(g) == g.width() * g.height(), "slots");
  g.clear();
  double x = coord("x"); double y = coord("y");
  sx_assume(x >= -4 * cs && x <= 4 * cs && y >= -4 * cs && y <= 4 * cs);
  Pt p(x, y);
  bool in = g.isInside(p);
  double x0 = -(l + 0.5) * cs, x1 = (r + 0.5) * cs, y0 = -(d + 0.5) * cs, y1 = (u + 0.5) * cs;
  if (in) sx_check(x >= x0 && x <= x1 && y >= y0 && y <= y1, "in");
  else sx_check(x <= x0 || x >= x1 || y <= y0 || y >= y1, "out");
  sx_check(!g.cellExists(p), "empty");
  if (!in) { sx_check(!g.removeCell(p), "remove-outside"); return; }
  g.addCell(p, Cell(5));
  extents(g, l, r, u, d, "no-growth");
  sx_check(held(g) == 1, "one");
  sx_check(g.cellExists(p) && g[p].v == 5 && g.getCellPtr(p)->v == 5, "back");
  // exactly one cell of the grid answers, and its square contains the point
  int hits = 0;
  for (int i = -l; i <= r; ++i)
    for (int j = -d; j <= u; ++j) {
      bool e = g.cellExists(at(i, j, cs));
      if (e) {
        ++hits;
        sx_check(x >= (i - 0.5) * cs && x <= (i + 0.5) * cs && y >= (j - 0.5) * cs && y <= (j + 0.5) * cs, "addr");
        sx_check(g[at(i, j, cs)].v == 5, "addr-value");
        // any other point: found exactly in the same square
        if (sx_bool("second")) {
          double x2 = coord("x2"); double y2 = coord("y2");
          sx_assume(x2 >= -4 * cs && x2 <= 4 * cs && y2 >= -4 * cs && y2 <= 4 * cs);
          bool f = g.cellExists(Pt(x2, y2));
          if (f) sx_check(x2 >= (i - 0.5) * cs && x2 <= (i + 0.5) * cs && y2 >= (j - 0.5) * cs && y2 <= (j + 0.5) * cs, "same");
          else sx_check(x2 <= (i - 0.5) * cs || x2 >= (i + 0.5) * cs || y2 <= (j - 0.5) * cs || y2 >= (j + 0.5) * cs, "elsewhere");
          return;
        }
      }
    }
  sx_check(hits == 1, "unique");
  sx_check(g.removeCell(p), "remove-inside");
  sx_check(!g.cellExists(p) && held(g) == 0, "removed");
}
SX_HARNESS(grow) {
  int k = (int)sx_conc(sx_int("cs", 0, 3));
  double cs = cellSize(k);
  Grid g; g.setCellSize((float)cs);
  g.addCell(Pt(0, 0), Cell(7), false);
  double x = coord("x"); double y = coord("y");
  sx_assume(x >= -4 * cs && x <= 4 * cs && y >= -4 * cs && y <= 4 * cs);
  Pt p(x, y);
  bool was = g.isInside(p);
  g.addCell(p, Cell(5), false);
  sx_check(slots(g) == g.width() * g.height(), "slots");
  sx_check(g.isInside(p), "fit");
  sx_check(g.cellExists(p) && g[p].v == 5, "back");
  if (was) sx_check(held(g) == 1, "replaced");
  else { sx_check(held(g) == 2, "two"); sx_check(g[Pt(0, 0)].v == 7, "kept"); }
}
SX_HARNESS(store) {
  double cs = cellSize((int)sx_conc(sx_int("cs", 0, 3)));
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, 1, 1, 1, 1);
  int i = (int)sx_conc(sx_int("i", -1, 1)); int j = (int)sx_conc(sx_int("j", -1, 1));
  double a = sx_real("a", -100, 100); double b = sx_real("b", -100, 100); double c = sx_real("c", -100, 100);
  Pt p = at(i, j, cs);
  Cell ca(a), cb(b);
  bool old = g.cellExists(p);
  g.addCell(p, ca, false);
  sx_check(g[p].v == a, "stored");
  if (sx_bool("lvalue")) g.addCell(p, cb, true); else g.addCell(p, Cell(b), true);
  sx_check(g[p].v == a + b, "merged");
  sx_check(ca.v == a && cb.v == b, "arg");
  if (sx_bool("lvalue2")) { Cell cc(c); g.addCell(p, cc, false); } else g.addCell(p, Cell(c), false);
  sx_check(g[p].v == c, "replaced");
  g[p].v = 42;
  sx_check(g.getCellPtr(p)->v == 42, "index");
  int n = 0;
  for (int s = -1; s <= 1; ++s) for (int t = -1; t <= 1; ++t) if (g.cellExists(at(s, t, cs))) ++n;
  sx_check(n == ((i == 0 && j == 0) ? 1 : 2) && old == (i == 0 && j == 0), "others");
}
SX_HARNESS(centre) {
  double cs = cellSize((int)sx_conc(sx_int("cs", 0, 3)));
  Grid g; g.setCellSize((float)cs);
  int l = (int)sx_conc(sx_int("l", 0, 2)); int r = (int)sx_conc(sx_int("r", 0, 2));
  int u = (int)sx_conc(sx_int("u", 0, 2)); int d = (int)sx_conc(sx_int("d", 0, 2));
  extend(g, cs, l, r, u, d);
  double x = coord("x"); double y = coord("y");
  sx_assume(x > -(l + 0.5) * cs && x < (r + 0.5) * cs && y > -(d + 0.5) * cs && y < (u + 0.5) * cs);
  std::pair<double, double> c = g.getCentroid(Pt(x, y));
  sx_check(c.first - x <= cs / 2 && x - c.first <= cs / 2 && c.second - y <= cs / 2 && y - c.second <= cs / 2, "centre");
  sx_check(g.isInside(Pt(c.first, c.second)), "centre-in");
  g.clear();
  g.addCell(Pt(x, y), Cell(3));
  sx_check(g.cellExists(Pt(c.first, c.second)), "centre-same");
}
