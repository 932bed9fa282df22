//@ bound: extents 0-1 in each direction, four content patterns, cell sizes 0.25-2, symbolic stored values; mutations of one side afterwards: add, remove, clear, translate, enlarge
//@ assume: coordinates are exact (cell sizes are powers of two); operator new does not fail
//@ harness: copies budget=200 expect=equal,independent
//@ harness: moved budget=100 expect=mv
//@ harness: cloned budget=60 expect=cl
#include "grid_common.h"
static void same(Grid& a, double cs, int l, int r, int u, int d, int pat, double z, const char* label) {
  extents(a, l, r, u, d, label);
  sx_check(a.getCellSize() == (float)cs, label);
  sx_check(slots(a) == a.width() * a.height(), label);
  size_t n = 0;
  for (int x = -l; x <= r; ++x) for (int y = -d; y <= u; ++y) {
    bool e = filled(pat, x, y, r, u);
    if (e) ++n;
    double w = (e && x == 0 && y == 0) ? z : tagOf(x, y);
    sx_check(a.cellExists(at(x, y, cs)) == e, label);
    if (e) sx_check(val(a, x, y, cs) == w, label);
  }
  sx_check(held(a) == n && a.validCells() == n, label);
  // a point next to the cell's corner still addresses the origin cell: the
  // half size is copied too
  sx_check(a.isInside(Pt(0.49 * cs, 0.49 * cs)), label);
  sx_check(!a.isInside(Pt((r + 0.51) * cs, 0)), label);
}
SX_HARNESS(copies) {
  double cs = cellSize((int)sx_conc(sx_int("cs", 0, 3)));
  int l = (int)sx_conc(sx_int("l", 0, 1)); int r = (int)sx_conc(sx_int("r", 0, 1));
  int u = (int)sx_conc(sx_int("u", 0, 1)); int d = (int)sx_conc(sx_int("d", 0, 1));
  int pat = (int)sx_conc(sx_int("pat", 0, 3));
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, pat, l, r, u, d);
  double z = sx_real("z", 1, 100);
  if (filled(pat, 0, 0, r, u)) g[Pt(0, 0)].v = z;
  Grid t; t.addCell(Pt(3, 0), Cell(1));
  Grid c(g);
  if (sx_bool("assign")) { t = g; } else { t = c; t = t; }
  same(c, cs, l, r, u, d, pat, z, "equal");
  same(t, cs, l, r, u, d, pat, z, "assigned");
  same(g, cs, l, r, u, d, pat, z, "source");
  int m = (int)sx_conc(sx_int("mut", 0, 4));
  Grid& v = sx_bool("which") ? g : c;
  Grid& o = (&v == &g) ? c : g;
  if (m == 0) { v.addCell(at(-1, 2, cs), Cell(9)); v.addCell(Pt(0, 0), Cell(55), true); }
  else if (m == 1) { v.removeCell(Pt(0, 0)); v.removeCell(at(r, u, cs)); }
  else if (m == 2) v.clear();
  else if (m == 3) v.translate(Eigen::Vector2i(1, 0), true);
  else { if (v.cellExists(Pt(0, 0))) v[Pt(0, 0)].v = 77; v.enlarge(-3, -3, 3, 3); }
  same(o, cs, l, r, u, d, pat, z, "independent");
  same(t, cs, l, r, u, d, pat, z, "independent2");
}
SX_HARNESS(moved) {
  double cs = cellSize((int)sx_conc(sx_int("cs", 0, 3)));
  int l = (int)sx_conc(sx_int("l", 0, 1)); int r = (int)sx_conc(sx_int("r", 0, 1));
  int u = (int)sx_conc(sx_int("u", 0, 1)); int d = (int)sx_conc(sx_int("d", 0, 1));
  int pat = (int)sx_conc(sx_int("pat", 0, 3));
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, pat, l, r, u, d);
  Grid m(std::move(g));
  same(m, cs, l, r, u, d, pat, tagOf(0, 0), "mv");
  Grid t; t.addCell(Pt(3, 0), Cell(1));
  t = std::move(m);
  same(t, cs, l, r, u, d, pat, tagOf(0, 0), "mv-assign");
}
SX_HARNESS(cloned) {
  double cs = cellSize((int)sx_conc(sx_int("cs", 0, 3)));
  int r = (int)sx_conc(sx_int("r", 0, 2));
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, 1, r, 0, 1);
  fill(g, cs, 0, 1, r, 0, 1);
  Grid e = g.clone();
  sx_check(e.getCellSize() == (float)cs, "cl");
  for (int x = -1; x <= r; ++x) for (int y = -1; y <= 0; ++y) {
    if (x || y) sx_check(!e.cellExists(at(x, y, cs)), "cl-empty");
    sx_check(val(g, x, y, cs) == tagOf(x, y), "cl-source");
  }
  sx_check(e.isInside(Pt(0.49 * cs, 0)) && !e.isInside(Pt(0.51 * cs, 0)), "cl-size");
}
