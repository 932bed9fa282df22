//@ bound: cell sizes 0.5, 1; extents 0-1 in each direction (quick) / 0-2 right and up (thorough); every pair of stored cells, or all of them; points any multiple of 1/64 within +-3 cells; radius 0-2 (quick) / 0-4 (thorough) and any radius up to 2^40
//@ assume: coordinates are exact (cell sizes are powers of two); operator new does not fail
//@ harness: window shards=8 budget=200 tbudget=800 expect=count,order,outside
//@ harness: pair budget=200 expect=member
//@ harness: far budget=60 expect=all
#include "grid_common.h"
SX_HARNESS(window) {
  const int M = SX_TIER(1, 2);
  int l = (int)sx_conc(sx_int("l", 0, 1)); int r = (int)sx_conc(sx_int("r", 0, M));
  int u = (int)sx_conc(sx_int("u", 0, M)); int d = (int)sx_conc(sx_int("d", 0, 1));
  int pat = sx_bool("holes") ? 2 : 0;
  double cs = pat ? 1.0 : 0.5;
  Grid g; g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, pat, l, r, u, d);
  size_t rad = (size_t)sx_conc(sx_int("rad", 0, SX_TIER(2, 4)));
  int px = (int)sx_conc(sx_int("px", -2, SX_TIER(2, 3))); int py = (int)sx_conc(sx_int("py", -2, SX_TIER(2, 3)));
  // any point strictly inside the square of cell (px,py)
  double ox = sx_fix("ox", -31, 31, -6); double oy = sx_fix("oy", -31, 31, -6);
  Pt p(px * cs + ox * cs, py * cs + oy * cs);
  auto res = g.getNeighbors(p, rad);
  bool in = px >= -l && px <= r && py >= -d && py <= u;
  size_t n = 0;
  if (in)
    for (int y = u; y >= -d; --y) for (int x = -l; x <= r; ++x) {
      int dx = x > px ? x - px : px - x, dy = y > py ? y - py : py - y;
      if (dx <= (int)rad && dy <= (int)rad && filled(pat, x, y, r, u)) {
        if (n < res.size()) sx_check(res[n]->v == tagOf(x, y), "order");
        ++n;
      }
    }
  sx_check(res.size() == n, in ? "count" : "outside");
  sx_check(held(g) == g.validCells(), "unchanged");
}
SX_HARNESS(pair) {
  double cs = 1.0;
  Grid g; g.setCellSize(1.0f);
  extend(g, cs, 1, 1, 1, 1); g.clear();
  int ax = (int)sx_conc(sx_int("ax", -1, 1)); int ay = (int)sx_conc(sx_int("ay", SX_TIER(0, -1), SX_TIER(0, 1)));
  int bx = (int)sx_conc(sx_int("bx", -1, 1)); int by = (int)sx_conc(sx_int("by", -1, 1));
  g.addCell(at(ax, ay, cs), Cell(1), false);
  g.addCell(at(bx, by, cs), Cell(2), false);
  size_t rad = (size_t)sx_conc(sx_int("rad", 0, 2));
  double x = sx_fix("x", -95, 95, -6); double y = sx_fix("y", -95, 95, -6);
  auto res = g.getNeighbors(Pt(x, y), rad);
  bool same = ax == bx && ay == by;
  bool a = false, b = false;
  for (auto* c : res) { if (c->v == 1) a = true; if (c->v == 2) b = true; }
  sx_check(res.size() == (size_t)((a ? 1 : 0) + (b ? 1 : 0)), "once");
  // a point may sit on a cell border: members are within rad+1/2 cells of it,
  // non members at least rad+1/2 cells away, measured to the cell centre
  double lim = rad + 0.5;
  double dbx = std::fabs(x - bx), dby = std::fabs(y - by), dax = std::fabs(x - ax), day = std::fabs(y - ay);
  if (b) sx_check(dbx <= lim && dby <= lim, "member"); else sx_check(dbx >= lim || dby >= lim, "non-member");
  if (!same) { if (a) sx_check(dax <= lim && day <= lim, "member2"); else sx_check(dax >= lim || day >= lim, "non-member2"); }
}
SX_HARNESS(far) {
  double cs = 1.0;
  Grid g; g.setCellSize(1.0f);
  extend(g, cs, 1, 2, 1, 0); fill(g, cs, 2, 1, 2, 1, 0);
  size_t rad = (size_t)sx_int("rad", 4, 1L << 40);
  double x = sx_fix("x", -95, 159, -6); double y = sx_fix("y", -31, 95, -6);
  auto res = g.getNeighbors(Pt(x, y), rad);
  auto all = g.getValidCellsPtr();
  sx_check(res.size() == all.size(), "all");
  for (size_t i = 0; i < res.size() && i < all.size(); ++i) sx_check(res[i] == all[i], "all-order");
}
