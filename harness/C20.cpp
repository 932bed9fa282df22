//@ bound: angles in [-100, 100] rad; scalar types double and float
//@ assume: arithmetic is over the reals; sin/cos/atan2 through exact axioms (unit circle, addition theorems, principal value)
//@ harness: norm budget=60 expect=n-range,n-turns,n-idem
//@ harness: same budget=60 expect=n-inside
//@ harness: diff budget=60 expect=d-range,d-turns
//@ harness: floats budget=60 expect=nf-range,nf-sin
#include "pose_common.h"
SX_HARNESS(norm) {
  double a = sx_angle("a", -100, 100);
  double n = normalizeAngle(a);
  sx_check(n <= M_PI + 1e-12 && n >= -M_PI - 1e-12, "n-range");
  eqAngle(n, a, "n-sin", "n-cos");
  double k = (a - n) / (2 * M_PI);
  sx_eq(k, std::floor(k + 0.5), 1e-9, "n-turns");
  sx_assume(n < 3.141592 && n > -3.141592);
  sx_eq(normalizeAngle(n), n, 1e-9, "n-idem");
}
SX_HARNESS(same) {  // an angle already in (-pi, pi] is left alone
  double a = sx_angle("a", -3.1415926, 3.1415926);
  sx_eq(normalizeAngle(a), a, 1e-9, "n-inside");
}
SX_HARNESS(diff) {
  Pose p, q; p << sx_real("x", -10, 10), 1, sx_angle("p", -100, 100); q << 2, sx_real("y", -10, 10), sx_angle("q", -100, 100);
  double d = getAngleDiffrence(p, q);
  sx_check(d <= M_PI + 1e-12 && d >= -M_PI - 1e-12, "d-range");
  double k = (q(2) - p(2) - d) / (2 * M_PI);
  sx_eq(k, std::floor(k + 0.5), 1e-9, "d-turns");
}
SX_HARNESS(floats) {
  float a = (float)sx_angle("a", -50, 50);
  float n = normalizeAngle<float>(a);
  sx_check(n <= 3.1415930f && n >= -3.1415930f, "nf-range");
  sx_eq(std::sin((double)n), std::sin((double)a), 1e-3, "nf-sin");
  sx_eq(std::cos((double)n), std::cos((double)a), 1e-3, "nf-cos");
}
