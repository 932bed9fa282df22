//@ src: src/ndt/ndt_cell.cpp
//@ rt: eig_rt.cpp str_rt.cpp
//@ cxx: -DSX_MAX_TERM -include eig_model.h
//@ bound: history: every sequence of 3 (quick) / 4 (thorough) updates from a new cell: set to -100..100, compute from 0, 3, 6 or 7 more points, ray through the mean / ending at the mean / missing the Gaussian by 3 sigma with weight 0-20, merge with a Gaussian or an empty cell, translate
//@ bound: weights: one cell (with or without a Gaussian) at any occupancy, one ray of any weight up to 10^9 or one batch of points; scale: the reported percentage for every occupancy a single update can produce
//@ assume: arithmetic is over the reals (percentages are compared with a slack of 10^-4 for the single precision store)
//@ harness: history shards=8 budget=200 expect=occupancy,range,percent,flag
//@ harness: weights shards=2 budget=60 expect=occupancy,range,hit,miss
#include "cell_common.h"
static double clamp(double o) { return o > 1 ? 1 : o < -1 ? -1 : o; }
static const double LL = 0.405465108;
struct M { double o; int buf; };
static void looks(const C& c, const M& m) {
  double raw = c.getOccupancyRaw();
  sx_eq(raw, m.o, 1e-5, "occupancy");
  sx_check((raw >= -1) & (raw <= 1), "range");
  int g = c.getOccupancy();
  double p = raw * 100;
  if (raw >= 1) sx_check(g == 100, "percent");
  else sx_check((g <= p + 1e-4) & (g > p - 1 - 1e-4), "percent");
}
static void op(C& c, M& m) {
  int k = (int)sx_conc(sx_int("op", 0, 6));
  bool gauss = c.hasGaussian();
  if (k == 0) {
    int o = (int)sx_int("o", -100, 100);
    c.setOccupancy((int8_t)o);
    m.o = o / 100.0;
    return;
  }
  if (k == 1) {
    static const int ns[4] = {0, 3, 6, 7};
    int n = ns[sx_conc(sx_int("n", 0, 3))];
    for (int i = 0; i < n; ++i) { V3 p(0, 0, 0); if (i < 6) p(i / 2) = i % 2 ? 1 + i / 2 : -1 - i / 2; c.addPoint(p); }
    m.buf += n;
    c.computeGaussian();
    m.o = clamp(m.o + m.buf * LL);
    bool full = m.o > 0 && m.buf >= 6;
    sx_check(c.hasGaussian() == full, "flag");
    if (full) m.buf = 0;
    return;
  }
  if (k == 2 || k == 3 || k == 4) {
    int w = (int)sx_int("w", 0, 20);
    V3 mean = c.getMean();
    double per;
    if (k == 2) { c.updateOccupancy(mean + V3(30, 0, 0), mean - V3(30, 0, 0), w); per = -LL; }
    else if (k == 3) { c.updateOccupancy(mean + V3(0, 9, 0), mean, w); per = 0; }
    else { c.updateOccupancy(mean + V3(30, 60, 0), mean + V3(-30, 60, 0), w); per = 0; }
    double ch = !gauss ? -0.2 * w : k == 3 ? 1 : per * w;
    m.o = clamp(m.o + ch);
    if (!gauss) sx_check(!c.hasGaussian(), "flag");
    else if (k == 3) sx_check(c.hasGaussian(), "flag");
    else sx_check(c.hasGaussian() == (m.o > 0), "flag");
    return;
  }
  if (k == 5) {
    bool good = sx_int("good", 0, 1) == 1;
    C d;
    double r[3] = {1, 2, 1};
    if (good) { d = star(V3(1, 2, 0), r, 0); d.setOccupancy(50); }
    c += d;
    if (good) {
      m.o = gauss ? clamp(m.o + 6 * LL) : 0.5;
      if (!gauss) m.buf = 0;
      sx_check(c.hasGaussian(), "flag");
    } else sx_check(c.hasGaussian() == gauss, "flag");
    return;
  }
  C::Transform t = C::Transform::Identity();
  t.matrix()(0, 3) = 2;
  c.transform(t);
  sx_check(c.hasGaussian() == gauss, "flag");
}
SX_HARNESS(history) {
  C c;
  M m = {0, 0};
  looks(c, m);
  for (int i = 0; i < SX_TIER(3, 4); ++i) op(c, m);
  looks(c, m);
}
SX_HARNESS(weights) {
  int o = (int)sx_int("o", -100, 100);
  int kind = (int)sx_conc(sx_int("kind", 0, 3));
  C c;
  double r[3] = {1, 2, 0.5};
  bool gauss = kind & 1;
  if (gauss) c = star(V3(3, -2, 1), r, 0);
  c.setOccupancy((int8_t)o);
  M m = {o / 100.0, 0};
  V3 mean = c.getMean();
  if (kind < 2) {
    long w = sx_int("w", 0, 1000000000);
    double y = sx_real("y", -9, 9);
    double q = y * y / c.getCov()(1, 1);
    c.updateOccupancy(mean + V3(50, y, 0), mean + V3(-50, y, 0), (size_t)w);
    double occ = c.getOccupancyRaw();
    sx_check(occ <= m.o + 1e-6, "miss");
    if (!gauss) m.o = clamp(m.o - 0.2 * w);
    else {
      double lik = 0.1 * std::exp(-q / 2) + 0.5;
      double ch = std::log((1 - lik) / lik);
      m.o = clamp(m.o + w * ch);
    }
    sx_eq(occ, m.o, 1e-4, "occupancy");
    sx_check((occ >= -1) & (occ <= 1), "range");
  } else {
    int n = (int)sx_conc(sx_int("n", 0, SX_TIER(12, 40)));
    for (int i = 0; i < n; ++i) { V3 p = mean; p(i % 3) += i % 2 ? 1 : -1; c.addPoint(p); }
    c.computeGaussian();
    m.o = clamp(m.o + n * LL);
    double occ = c.getOccupancyRaw();
    sx_check(occ >= o / 100.0 - 1e-6, "hit");
    if (n > 0) sx_check((occ > o / 100.0 + 0.1) | (occ >= 1), "hit");
    looks(c, m);
  }
}
