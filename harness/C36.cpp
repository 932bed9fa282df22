//@ cxx: -DBOOST_SP_DISABLE_THREADS
//@ bound: scans of 3 points within +-0.65 m at any multiple of 1/32 m (shifted off the borders), cell size 0.5; two scans or two maps merged at relative headings 0, a quarter turn and 0.3 rad, translations of any multiple of 1/32 within +-0.5 m
//@ assume: arithmetic over the reals; PCL is replaced by the stand-ins in shims/; the cell type records the points it is given and has a Gaussian from two points on
//@ harness: scan budget=200 tbudget=850 shards=8 expect=point,gaussian,means
//@ harness: second budget=200 tbudget=850 shards=8 expect=point,merged
//@ harness: fixed budget=200 tbudget=850 shards=4 expect=inside,outside
#include "map_common.h"
static const double CS = 0.5;
struct Pts { int n; double x[8], y[8]; };
static void add(Cloud& c, Pts& p, int tag, double x, double y) {
  P3 q; q.x = (float)x; q.y = (float)y; q.z = (float)tag;
  c.push_back(q);
  p.x[tag] = x; p.y[tag] = y;
}
// the points of the map frame are p; every Gaussian cell holds exactly the points that lie in it
static void verify(Map& m, const Pts& p, const bool* expect, const char* label) {
  auto cells = m.getGaussianCells();
  for (int i = 0; i < p.n; ++i) {
    int found = 0;
    for (size_t k = 0; k < cells.size(); ++k)
      if (has(*cells[k], i)) {
        ++found;
        bool ok = true;
        for (size_t j = 0; j < cells[k]->pts.size(); ++j)
          if (cells[k]->pts[j](2) == i) {
            sx_eq(cells[k]->pts[j](0), p.x[i], 1e-6, "coordinates");
            sx_eq(cells[k]->pts[j](1), p.y[i], 1e-6, "coordinates");
          }
        sx_check(ok, label);
      }
    sx_check(found == (expect[i] ? 1 : 0), label);
  }
  size_t total = 0;
  for (size_t k = 0; k < cells.size(); ++k) {
    total += cells[k]->pts.size();
    V2 mean = cells[k]->mean.head(2);
    sx_check(m.isInside(mean), "gaussian");
    sx_check(&m[mean] == cells[k], "gaussian");
  }
  size_t want = 0;
  for (int i = 0; i < p.n; ++i) want += expect[i];
  sx_check(total == want, "gaussian");
  // the cloud of means is the list of Gaussian cells
  auto means = m.getMeans();
  sx_check(means->size() == cells.size(), "means");
  for (size_t k = 0; k < cells.size(); ++k) {
    sx_eq(means->points[k].x, cells[k]->mean(0), 1e-5, "means");
    sx_eq(means->points[k].y, cells[k]->mean(1), 1e-5, "means");
  }
}
static void partners(const Pts& p, int from, int to, const long* cx, const long* cy, bool* expect) {
  for (int i = from; i < to; ++i) {
    expect[i] = false;
    for (int j = from; j < to; ++j)
      if (i != j && cx[i] == cx[j] && cy[i] == cy[j]) expect[i] = true;
  }
}
SX_HARNESS(scan) {
  const int N = 3;
  Map m; m.setCellSize((float)CS);
  Cloud c; Pts p; p.n = N;
  for (int i = 0; i < N; ++i) { double x = coord("x", i == 2 || (i == 0 && !SX_THOROUGH) ? 6 : 20), y = coord("y", i == 0 || (i == 1 && !SX_THOROUGH) ? 6 : 20); add(c, p, i, x, y); }
  bool traced = sx_bool("traced");
  // the origin of the map does not matter: the scan is taken from there
  m.setOrigin(Eigen::Vector3d(3, -2, 1));
  if (traced) m.initialize(c); else m.initializeSimple(c);
  long cx[8], cy[8]; bool e[8];
  for (int i = 0; i < N; ++i) { cx[i] = cellOf(p.x[i], CS); cy[i] = cellOf(p.y[i], CS); }
  partners(p, 0, N, cx, cy, e);
  verify(m, p, e, "point");
  // initialising again forgets the first scan
  Cloud c2; Pts p2; p2.n = 2;
  add(c2, p2, 0, 0.125, 0.125); add(c2, p2, 1, 0.0625, -0.125);
  bool both[2] = {true, true};
  if (traced) m.initialize(c2); else m.initializeSimple(c2);
  verify(m, p2, both, "again");
}
SX_HARNESS(second) {
  Map m; m.setCellSize((float)CS);
  int turn = (int)sx_conc(sx_int("turn", 0, 2));
  double th = turn == 0 ? 0 : turn == 1 ? 1.57079632679489661923 : 0.3;
  double tx = sx_fix("tx", -16, 16, -5), ty = turn == 2 ? 0.25 : 0;
  Pts p; p.n = 5;
  Cloud a;
  add(a, p, 0, 0.515625, 0.015625); add(a, p, 1, 0.421875, 0.109375);
  m.initializeSimple(a);
  double co = std::cos(th), si = std::sin(th);
  int how = (int)sx_conc(sx_int("how", 0, 2));
  Cloud b;
  long cx[8], cy[8]; bool e[8];
  double bx[8], by[8];
  double rx = sx_fix("rx", -20, 20, -5) + 1.0 / 64;
  for (int i = 2; i < 5; ++i) {
    bx[i] = i == 4 ? -0.265625 : rx + (i - 2) * 0.0625;
    by[i] = i == 4 ? -0.265625 : 0.046875 * (i - 2);
    add(b, p, i, bx[i], by[i]);
  }
  // expected place in the frame of the map
  for (int i = 2; i < 5; ++i) {
    p.x[i] = co * bx[i] - si * by[i] + tx;
    p.y[i] = si * bx[i] + co * by[i] + ty;
    bool far = clear_of_borders(p.x[i], CS) & clear_of_borders(p.y[i], CS);
    sx_assume(far);
  }
  for (int i = 2; i < 5; ++i) { cx[i] = cellOf(p.x[i], CS); cy[i] = cellOf(p.y[i], CS); }
  if (how == 2) {
    // a map of its own: its cells are transformed, they carry the points of their own grid
    Map o; o.setCellSize((float)CS);
    o.setOrigin(Eigen::Vector3d(tx, ty, th));
    o.initializeSimple(b);
    m.mergeIn(o, true, true);
    long ox[8], oy[8];
    for (int i = 2; i < 5; ++i) {
      bool far = clear_of_borders(bx[i], CS) & clear_of_borders(by[i], CS);
      sx_assume(far);
      ox[i] = cellOf(bx[i], CS); oy[i] = cellOf(by[i], CS);
    }
    partners(p, 2, 5, ox, oy, e);
  } else {
    if (how == 0) m.mergeIn(b, Eigen::Vector3d(tx, ty, th), true);
    else m.mergeInTraced(b, Eigen::Vector3d(tx, ty, th), true);
    partners(p, 2, 5, cx, cy, e);
  }
  e[0] = e[1] = true;
  // nothing of the first scan is lost, everything of the second is there
  auto cells = m.getGaussianCells();
  size_t total = 0;
  for (size_t k = 0; k < cells.size(); ++k) total += cells[k]->pts.size();
  sx_check(total == (size_t)(2 + e[2] + e[3] + e[4]), "merged");
  for (int i = 0; i < 5; ++i) {
    int found = 0;
    for (size_t k = 0; k < cells.size(); ++k)
      for (size_t j = 0; j < cells[k]->pts.size(); ++j)
        if (cells[k]->pts[j](2) == i) {
          ++found;
          sx_eq(cells[k]->pts[j](0), p.x[i], 1e-6, "coordinates");
          sx_eq(cells[k]->pts[j](1), p.y[i], 1e-6, "coordinates");
        }
    sx_check(found == (e[i] ? 1 : 0), "point");
  }
  auto means = m.getMeans();
  sx_check(means->size() == cells.size(), "means");
}
SX_HARNESS(fixed) {
  // without resizing: what lies outside the map is dropped, the rest is merged
  Map m; m.setCellSize((float)CS);
  Cloud a; Pts p; p.n = 2;
  add(a, p, 0, -0.484375, -0.484375); add(a, p, 1, 0.484375, 0.484375);
  P3 q; q.x = 0.015625f; q.y = 0.015625f; q.z = 2; a.push_back(q);
  q.y = 0.046875f; q.z = 3; a.push_back(q);
  m.initializeSimple(a);
  size_t before = m.getGaussianCells().size();
  sx_check(before == 1, "inside");
  double x = coord("x", 64), y = coord("y", 64);
  Cloud b;
  q.x = (float)x; q.y = (float)y; q.z = 4; b.push_back(q); q.z = 5; b.push_back(q);
  bool traced = sx_bool("traced");
  if (traced) m.mergeInTraced(b, Eigen::Vector3d(0, 0, 0), false); else m.mergeIn(b, Eigen::Vector3d(0, 0, 0), false);
  // the map covers its only Gaussian cell
  bool in = x > -0.25 && x < 0.25 && y > -0.25 && y < 0.25;
  auto cells = m.getGaussianCells();
  int f4 = 0, f2 = 0;
  for (size_t k = 0; k < cells.size(); ++k) { f4 += has(*cells[k], 4) && has(*cells[k], 5); f2 += has(*cells[k], 2) && has(*cells[k], 3); }
  sx_check(f2 == 1, "inside");
  if (in) { sx_check(f4 == 1 && cells.size() == 1, "inside"); }
  else { sx_check(f4 == 0 && cells.size() == 1, "outside"); }
}
