//@ src: src/ndt/ndt_cell.cpp
//@ rt: eig_rt.cpp str_rt.cpp
//@ cxx: -DSX_MAX_TERM -include eig_model.h
//@ bound: ray: axis aligned and plane coupled Gaussians of fixed shape; rays of 5 directions (thorough: 9 directions and 2 lengths) ending anywhere within +-5 (two coordinates) of the mean, weight 1 or 20 (thorough: also 0), occupancy before -100..100
//@ bound: end: rays of any direction and length that end at or near the mean; still: rays of length zero ending anywhere; tangent: axis parallel rays of any length up to 50 whose most likely point is their end; plain: any ray through a cell without a Gaussian; weights 0-20
//@ assume: arithmetic is over the reals; exp and log are known by monotony and sampled bounds
//@ harness: ray shards=8 fto=500 cto=4000 budget=150 expect=occupancy,gaussian,kept
//@ harness: end budget=60 expect=end,kept
//@ harness: still budget=60 expect=still,kept
//@ harness: tangent budget=60 expect=tangent,kept
//@ harness: plain budget=60 expect=plain,kept
#include "cell_common.h"
static double clamp(double o) { return o > 1 ? 1 : o < -1 ? -1 : o; }
static C cell(bool coupled) {
  double r[3] = {1, 2, 0.5};
  C c;
  V3 m(3, -2, 1);
  addStar(c, m, M3::Identity(), r, 0);
  if (coupled) { c.addPoint(m + V3(1.5, 1, 0)); c.addPoint(m - V3(1.5, 1, 0)); }
  c.computeGaussian();
  return c;
}
SX_HARNESS(ray) {
  static const double dirs[9][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {1, 1, 0}, {3, -4, 0}, {-2, 1, 2}, {1, 5, -3}};
  static const int quick[5] = {0, 4, 5, 6, 7};
  int k = (int)sx_conc(sx_int("dir", 0, SX_TIER(4, 8)));
  bool far = k % 2;
  if (SX_THOROUGH) far = sx_int("far", 0, 1) == 1; else k = quick[k];
  bool cp = sx_int("coupled", 0, 1) == 1, plane = sx_int("plane", 0, 1) == 1;
  double x = sx_real("x", -5, 5); double y = sx_real("y", -5, 5);
  static const int ws[3] = {1, 20, 0};
  int w = ws[sx_conc(sx_int("w", 0, SX_TIER(1, 2)))]; int o = (int)sx_int("o", -100, 100);
  C c = cell(cp);
  V3 m = c.getMean(), g(dirs[k][0], dirs[k][1], dirs[k][2]);
  if (far) g *= 7;
  V3 e = m + (plane ? V3(x, 0, y) : V3(x, y, 0)), s = e - g;
  double l1 = std::abs(e(0) - m(0)) + std::abs(e(1) - m(1)) + std::abs(e(2) - m(2));
  sx_assume(l1 > 0.0101);
  c.setOccupancy((int8_t)o);
  State b = state(c);
  c.updateOccupancy(s, e, w);
  // the ray's most likely point minimises the quadratic form of the inverse covariance
  double gg = 0, gb = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { gg += g(i) * b.icov(i, j) * g(j); gb += g(i) * b.icov(i, j) * (e(j) - m(j)); }
  double t = -gb / gg, q = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q += (e(i) + t * g(i) - m(i)) * b.icov(i, j) * (e(j) + t * g(j) - m(j));
  double d2 = t * t * (g(0) * g(0) + g(1) * g(1) + g(2) * g(2));
  double hit = std::exp(-q / 2);
  double sn = 0.01f;  // the noise constant is a float
  double n2 = sn * sn;
  double at = std::exp(-0.5 * d2 / n2);
  double p = 0.1 * hit * (1 - at) + 0.5;
  double ch = std::log((1 - p) / p);
  double occ = c.getOccupancyRaw(), want = clamp(double(b.o) + w * ch);
  sx_eq(occ, want, 1e-4, "occupancy");
  sx_check(c.hasGaussian() == (occ > 0), "gaussian");
  sameGaussian(c, b, "kept");
}
SX_HARNESS(end) {
  V3 s = symVec(50, false);
  double x = sx_real("x", -0.009, 0.009);
  int ax = (int)sx_conc(sx_int("axis", 0, 2));
  int w = (int)sx_int("w", 0, 20); int o = (int)sx_int("o", -100, 100);
  C c = cell(sx_int("coupled", 0, 1) == 1);
  V3 e = c.getMean();
  e(ax) += x;
  c.setOccupancy((int8_t)o);
  State b = state(c);
  c.updateOccupancy(s, e, w);
  sx_eq(c.getOccupancyRaw(), clamp(double(b.o) + 1), 1e-6, "end");
  sx_check(c.hasGaussian(), "end");
  sameGaussian(c, b, "kept");
}
SX_HARNESS(tangent) {
  int ax = (int)sx_conc(sx_int("axis", 0, 2)); bool back = sx_int("back", 0, 1) == 1;
  double h = sx_real("h", 0.0102, 5); double len = sx_real("len", 0.1, 50);
  int w = (int)sx_int("w", 0, 20); int o = (int)sx_int("o", -100, 100);
  C c = cell(false);
  V3 e = c.getMean(), s;
  e((ax + 1) % 3) += back ? -h : h;
  s = e; s(ax) += back ? len : -len;
  c.setOccupancy((int8_t)o);
  State b = state(c);
  c.updateOccupancy(s, e, w);
  sx_eq(c.getOccupancyRaw(), b.o, 1e-6, "tangent");
  sx_check(c.hasGaussian() == (b.o > 0), "tangent");
  sameGaussian(c, b, "kept");
}
SX_HARNESS(still) {
  V3 s = symVec(9, false);
  int w = (int)sx_int("w", 0, 20); int o = (int)sx_int("o", -100, 100);
  C c = cell(sx_int("coupled", 0, 1) == 1);
  c.setOccupancy((int8_t)o);
  State b = state(c);
  c.updateOccupancy(s, s, w);
  double occ = c.getOccupancyRaw();
  sx_check(occ >= -1 && occ <= 1, "still");
  V3 d = s - b.mean;
  if (std::abs(d(0)) + std::abs(d(1)) + std::abs(d(2)) > 0.0101) sx_eq(occ, b.o, 1e-6, "still");
  sameGaussian(c, b, "kept");
}
SX_HARNESS(plain) {
  V3 s = symVec(50, false), e = symVec(50, false);
  int w = (int)sx_int("w", 0, 20); int o = (int)sx_int("o", -100, 100); int k = (int)sx_conc(sx_int("kind", 0, 2));
  C c;
  if (k == 1) { for (int i = 0; i < 3; ++i) c.addPoint(V3(i, 1, 0)); c.computeGaussian(); }
  if (k == 2) { c = cell(false); c.setOccupancy(-100); c.updateOccupancy(V3(3, 30, 1), V3(3, -30, 1), 1); }
  c.setOccupancy((int8_t)o);
  State b = state(c);
  sx_check(!b.g, "before");
  c.updateOccupancy(s, e, w);
  sx_eq(c.getOccupancyRaw(), clamp(double(b.o) - 0.2 * w), 1e-6, "plain");
  sx_check(!c.hasGaussian(), "plain");
  sameGaussian(c, b, "kept");
}
