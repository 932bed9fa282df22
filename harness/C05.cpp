//@ bound: cell sizes 0.25, 1; extents 0-1 in each direction; growth of 0-2 cells left and up and 0-1 right and down (quick) / 0-3 and 0-2 (thorough) at once; three content patterns
//@ bound: requested borders: any multiple of 1/64 within +-3 cells; sequences of 2 (quick) / 3 (thorough) insertions at cells within +-2
//@ assume: coordinates are exact (cell sizes are powers of two); operator new does not fail
//@ harness: grow budget=200 tbudget=800 expect=kept,new-empty
//@ harness: request budget=200 tbudget=800 expect=covers,monotone
//@ harness: history budget=200 tbudget=800 expect=all-kept
#include "grid_common.h"
SX_HARNESS(grow) {
  int l = (int)sx_conc(sx_int("l", 0, 1)); int r = (int)sx_conc(sx_int("r", 0, 1));
  int u = (int)sx_conc(sx_int("u", 0, 1)); int d = (int)sx_conc(sx_int("d", 0, 1));
  int pat = (l + r + u + d) & 1 ? 0 : 2;
  if (SX_THOROUGH && sx_bool("alt")) pat = 3;
  double cs = pat == 0 ? 1.0 : 0.25;
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, pat, l, r, u, d);
  int G = SX_TIER(1, 2);
  int a = (int)sx_conc(sx_int("gl", 0, G + 1)); int b = (int)sx_conc(sx_int("gr", 0, G));
  int c = (int)sx_conc(sx_int("gu", 0, G + 1)); int e = (int)sx_conc(sx_int("gd", 0, G));
  size_t n = held(g);
  extend(g, cs, l + a, r + b, u + c, d + e);
  extents(g, l + a, r + b, u + c, d + e, "extents");
  sx_check(slots(g) == g.width() * g.height(), "slots");
  sx_check(held(g) == n && g.validCells() == n, "held");
  for (int x = -l - a; x <= r + b; ++x)
    for (int y = -d - e; y <= u + c; ++y) {
      bool old = x >= -l && x <= r && y >= -d && y <= u;
      double v = val(g, x, y, cs);
      if (old && filled(pat, x, y, r, u)) sx_check(v == tagOf(x, y), "kept");
      else sx_check(v == -1, "new-empty");
    }
  // asking for less changes nothing
  extend(g, cs, 0, 0, 0, 0);
  extents(g, l + a, r + b, u + c, d + e, "no-shrink");
}
SX_HARNESS(request) {
  double cs = sx_bool("cs") ? 1.0 : 0.25;
  int l = 1; int u = (int)sx_conc(sx_int("u", 0, 1));
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, 1, u, 0);
  fill(g, cs, 0, l, 1, u, 0);
  double x0 = sx_fix("minx", -192, 192, -6); double y0 = sx_fix("miny", -192, 192, -6);
  double x1 = sx_fix("maxx", -192, 192, -6); double y1 = sx_fix("maxy", -192, 192, -6);
  bool horizontal = sx_bool("horizontal");
  if (horizontal) { y0 = -2 * cs; y1 = 2 * cs; sx_assume(x0 >= -3 * cs && x0 <= 3 * cs && x1 >= -3 * cs && x1 <= 3 * cs); }
  else { x0 = -2 * cs; x1 = 2 * cs; sx_assume(y0 >= -3 * cs && y0 <= 3 * cs && y1 >= -3 * cs && y1 <= 3 * cs); }
  g.enlarge((float)x0, (float)y0, (float)x1, (float)y1);
  sx_check(g.left() >= (size_t)l && g.right() >= 1 && g.up() >= (size_t)u, "monotone");
  sx_check(slots(g) == g.width() * g.height(), "slots");
  double W = (g.right() + 0.5) * cs, w = -(g.left() + 0.5) * cs, H = (g.up() + 0.5) * cs, h = -(g.down() + 0.5) * cs;
  sx_check(w <= x0 && x1 <= W && h <= y0 && y1 <= H, "covers");
  // the requested borders themselves are addressable whichever way they face
  sx_check(x0 < -(l + 0.5) * cs ? g.isInside(Pt(x0, 0)) : true, "left-in");
  sx_check(x1 > 1.5 * cs ? g.isInside(Pt(x1, 0)) : true, "right-in");
  sx_check(y1 > (u + 0.5) * cs ? g.isInside(Pt(0, y1)) : true, "up-in");
  sx_check(y0 < -0.5 * cs ? g.isInside(Pt(0, y0)) : true, "down-in");
  for (int x = -l; x <= 1; ++x) for (int y = 0; y <= u; ++y) sx_check(val(g, x, y, cs) == tagOf(x, y), "kept");
  sx_check(held(g) == (size_t)((l + 2) * (u + 1)), "held");
}
SX_HARNESS(history) {
  const int N = SX_TIER(2, 3), R = 2;
  Grid g; g.setCellSize(1.0f);
  g.addCell(Pt(0, 0), Cell(7), false);
  int xs[3], ys[3];
  for (int i = 0; i < N; ++i) {
    xs[i] = (int)sx_conc(sx_int("x", -R, R)); ys[i] = (int)sx_conc(sx_int("y", -R, R));
    g.addCell(at(xs[i], ys[i], 1.0), Cell(i + 20), false);
  }
  sx_check(slots(g) == g.width() * g.height(), "slots");
  size_t distinct = 1;
  for (int i = 0; i < N; ++i) {
    bool last = true, first = !(xs[i] == 0 && ys[i] == 0);
    for (int k = i + 1; k < N; ++k) if (xs[k] == xs[i] && ys[k] == ys[i]) last = false;
    for (int k = 0; k < i; ++k) if (xs[k] == xs[i] && ys[k] == ys[i]) first = false;
    if (first) ++distinct;
    if (last) sx_check(val(g, xs[i], ys[i], 1.0) == i + 20, "all-kept");
    if (xs[i] == 0 && ys[i] == 0) return;
  }
  sx_check(val(g, 0, 0, 1.0) == 7, "origin");
  sx_check(held(g) == distinct, "distinct");
}
