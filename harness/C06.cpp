//@ bound: extents 0-1 in each direction (quick) / up to 2 right and up (thorough); translations within +-3 / +-4 cells; three content patterns; discarding and growing
//@ bound: far translations of any size up to 2^30 cells; sequences of two translations
//@ assume: coordinates are exact (cell sizes are powers of two); operator new does not fail
//@ harness: move budget=200 tbudget=800 expect=moved,dropped
//@ harness: grow budget=200 tbudget=800 expect=g-moved
//@ harness: far budget=60 expect=far-empty
//@ harness: twice budget=200 tbudget=800 expect=tw
#include "grid_common.h"
static void setup(Grid& g, double cs, int& l, int& r, int& u, int& d, int& pat) {
  const int M = SX_TIER(1, 2);
  l = (int)sx_conc(sx_int("l", 0, 1)); r = (int)sx_conc(sx_int("r", 0, M));
  u = (int)sx_conc(sx_int("u", 0, M)); d = (int)sx_conc(sx_int("d", 0, 1));
  pat = sx_bool("holes") ? 2 + ((l + u) & 1) : 0;
  g.setCellSize((float)cs);
  extend(g, cs, l, r, u, d);
  fill(g, cs, pat, l, r, u, d);
}
static void compare(Grid& g, double cs, int l, int r, int u, int d, int pat, int tx, int ty, int L, int R, int U, int D, const char* in, const char* out) {
  size_t n = 0;
  for (int x = -L; x <= R; ++x)
    for (int y = -D; y <= U; ++y) {
      int sx = x - tx, sy = y - ty;
      bool e = sx >= -l && sx <= r && sy >= -d && sy <= u && filled(pat, sx, sy, r, u);
      double v = val(g, x, y, cs);
      if (e) { ++n; sx_check(v == tagOf(sx, sy), in); }
      else sx_check(v == -1, out);
    }
  sx_check(held(g) == n, "nothing-else");
}
SX_HARNESS(move) {
  double cs = 0.5;
  Grid g; int l, r, u, d, pat;
  setup(g, cs, l, r, u, d, pat);
  const int T = SX_TIER(3, 4);
  int tx = (int)sx_conc(sx_int("tx", -T, T)); int ty = (int)sx_conc(sx_int("ty", -T, T));
  g.translate(Eigen::Vector2i(tx, ty), true);
  extents(g, l, r, u, d, "extents");
  sx_check(slots(g) == g.width() * g.height(), "slots");
  compare(g, cs, l, r, u, d, pat, tx, ty, l, r, u, d, "moved", "dropped");
}
SX_HARNESS(grow) {
  double cs = 1.0;
  Grid g; int l, r, u, d, pat;
  setup(g, cs, l, r, u, d, pat);
  int tx = (int)sx_conc(sx_int("tx", -2, 1)); int ty = (int)sx_conc(sx_int("ty", -1, 2));
  g.translate(Eigen::Vector2i(tx, ty), false);
  sx_check(g.left() >= (size_t)l && g.right() >= (size_t)r && g.up() >= (size_t)u && g.down() >= (size_t)d, "no-shrink");
  sx_check(slots(g) == g.width() * g.height(), "slots");
  compare(g, cs, l, r, u, d, pat, tx, ty, (int)g.left(), (int)g.right(), (int)g.up(), (int)g.down(), "g-moved", "g-else");
  size_t n = 0;
  for (int x = -l; x <= r; ++x) for (int y = -d; y <= u; ++y) if (filled(pat, x, y, r, u)) ++n;
  sx_check(held(g) == n, "g-all-kept");
}
SX_HARNESS(far) {
  double cs = 1.0;
  Grid g; int l, r, u, d, pat;
  setup(g, cs, l, r, u, d, pat);
  int tx = (int)sx_int("tx", -(1L << 30), 1L << 30); int ty = (int)sx_int("ty", -(1L << 30), 1L << 30);
  bool horizontal = sx_bool("horizontal");
  if (horizontal) { ty = 0; sx_assume(tx >= l + r + 1 || tx <= -(l + r + 1)); }
  else { tx = 0; sx_assume(ty >= u + d + 1 || ty <= -(u + d + 1)); }
  g.translate(Eigen::Vector2i(tx, ty), true);
  extents(g, l, r, u, d, "far-extents");
  sx_check(held(g) == 0, "far-empty");
}
SX_HARNESS(twice) {
  double cs = 1.0;
  Grid g; g.setCellSize(1.0f);
  extend(g, cs, 1, 1, 1, 1); fill(g, cs, 0, 1, 1, 1, 1);
  int ax = (int)sx_conc(sx_int("ax", -2, 2)); int ay = (int)sx_conc(sx_int("ay", -2, 2));
  int bx = (int)sx_conc(sx_int("bx", -2, 2)); int by = (int)sx_conc(sx_int("by", -1, 1));
  g.translate(Eigen::Vector2i(ax, ay), true);
  g.translate(Eigen::Vector2i(bx, by), true);
  for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) {
    int mx = x - bx, my = y - by, ox = mx - ax, oy = my - ay;
    bool e = mx >= -1 && mx <= 1 && my >= -1 && my <= 1 && ox >= -1 && ox <= 1 && oy >= -1 && oy <= 1;
    sx_check(val(g, x, y, cs) == (e ? tagOf(ox, oy) : -1), "tw");
  }
}
