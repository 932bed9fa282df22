//@ bound: histories of 3 (quick) / 4 (thorough) operations, each one of add, remove, clear, translate (discarding or growing), ray trace, enlarge, copy, with symbolic positions within +-1 cell
//@ assume: coordinates are exact (cell sizes are powers of two); operator new does not fail
//@ harness: history budget=300 tbudget=850 expect=count,list,ptrs
#include "grid_common.h"
static void verify(Grid& g) {
  size_t n = held(g);
  sx_check(g.validCells() == n, "count");
  auto ptrs = g.getValidCellsPtr();
  auto vals = g.getValidCells();
  sx_check(ptrs.size() == n && vals.size() == n, "list");
  size_t i = 0;
  for (auto it = g.begin(); it != g.end(); ++it)
    if (it->get()) {
      sx_check(ptrs[i] == it->get(), "ptrs");
      sx_check(vals[i].v == it->get()->v, "vals");
      ++i;
    }
}
SX_HARNESS(history) {
  Grid g; g.setCellSize(1.0f);
  verify(g);
  double tag = 10;
  const int N = SX_TIER(3, 4);
  for (int k = 0; k < N; ++k) {
    int op = (int)sx_conc(sx_int("op", 0, 7));
    if (op <= 1) {
      int x = (int)sx_conc(sx_int("x", -1, 1)); int y = (int)sx_conc(sx_int("y", -1, SX_TIER(0, 1)));
      if (op == 0) g.addCell(at(x, y, 1.0), Cell(tag), (x & 1) == 0); else g.removeCell(at(x, y, 1.0));
      tag += 1;
    } else if (op == 2) {
      g.clear();
      sx_check(held(g) == 0, "clear");
    } else if (op == 3) {
      int t = (int)sx_conc(sx_int("t", 0, 3));
      g.translate(t == 0 ? Eigen::Vector2i(1, 0) : t == 1 ? Eigen::Vector2i(-1, 1) : t == 2 ? Eigen::Vector2i(0, -1) : Eigen::Vector2i(-2, 0), true);
    } else if (op == 4) {
      g.translate(sx_bool("dir") ? Eigen::Vector2i(1, -1) : Eigen::Vector2i(-1, 0), false);
    } else if (op == 5) {
      if (sx_bool("ray")) g.rayTrace(Pt(2.25, 0)); else g.rayTrace(Pt(0, 0), Pt(-0.5, 3));
    } else if (op == 6) {
      g.enlarge(-1, 0, 2, 1);
    } else {
      Grid c(g);
      verify(c);
      g = c;
    }
    verify(g);
  }
}
