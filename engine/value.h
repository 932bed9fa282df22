#pragma once
#include <z3++.h>
#include <cstdint>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <climits>
#include <cmath>
namespace sx {
typedef __int128 i128;
enum Kind { K_INT, K_BOOL, K_REAL, K_FP, K_AGG, K_CONCAT, K_UNDEF, K_WIDE };
struct Val;
struct Node {
  Kind k;
  std::unique_ptr<z3::expr> e;
  i128 lo = 0, hi = 0;      // K_INT: interval of the (signed canonical) value; K_WIDE: lo holds bits
  int q = INT_MIN;          // K_REAL: value is a multiple of 2^q (INT_MIN unknown)
  double mag = INFINITY;    // K_REAL: |v| <= mag
  unsigned width = 64;      // K_INT / K_FP
  std::vector<Val> kids;    // K_AGG, K_CONCAT
  std::vector<unsigned> szs;  // K_CONCAT byte sizes (little endian order)
  Node(Kind kk) : k(kk) {}
};
struct Val {
  uint64_t c = 0;
  Node* n = nullptr;
  Val() {}
  Val(uint64_t x) : c(x) {}
  Val(Node* x) : n(x) {}
  bool conc() const { return !n; }
  bool is(Kind k) const { return n && n->k == k; }
  bool undef() const { return is(K_UNDEF); }
};

inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextW(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskW(w);
  return (int64_t)((v ^ m) - m);
}
inline double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t fromD(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline float asF(uint64_t b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
inline uint64_t fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }

enum ObjKind { O_STACK, O_MALLOC, O_NEW, O_NEWARR, O_GLOBAL, O_CONST, O_EXT };
struct Cell { Val v; unsigned size; };
struct Obj {
  uint64_t base, size;
  ObjKind kind;
  bool alive = true;
  std::vector<uint8_t> bytes, st;  // st: 0 uninit, 1 concrete, 2 symbolic cell
  std::map<unsigned, Cell> cells;
  Obj(uint64_t b, uint64_t s, ObjKind k) : base(b), size(s), kind(k), bytes(s, 0), st(s, 0) {}
};
// path-terminating conditions
struct PathEnd { std::string why; };                  // silent end (assume false, harness exit)
struct PathError { std::string kind, msg; };          // candidate violation
struct Unsupported { std::string msg; };              // inconclusive
struct OutOfBudget {};
}  // namespace sx
