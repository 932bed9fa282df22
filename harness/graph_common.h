#pragma once
#include "sx.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <stdexcept>
#include <utility>
using namespace slamuk;
typedef Slam2d_Policy P;
typedef slamuk::Graph<P, int> G;
typedef slamuk::Node<P, int> N;
typedef slamuk::Edge<P, int> E;
static inline N mkNode(double v, int obj) { P::Pose p; p << v, v + 1, 0; return N(p, obj); }
static inline E mkEdge(G& g, size_t from, size_t to, double tag) {
  P::Pose t; t << tag, 0, 0;
  return E(&g.getNode(from), &g.getNode(to), t, P::InformMatrix::Identity());
}
// what the history so far promises
struct Ref {
  static const int MAX = 10;
  bool live[MAX]; double tag[MAX]; int from[MAX], to[MAX]; int n;
  Ref() : n(0) { for (int i = 0; i < MAX; ++i) { live[i] = false; tag[i] = 0; from[i] = to[i] = 0; } }
  int count() const { int c = 0; for (int i = 0; i < n; ++i) c += live[i]; return c; }
};
static inline void refAdd(Ref& r, size_t id, double tag, int f, int t) {
  sx_check(id < (size_t)Ref::MAX, "id-in-range");
  sx_check(!r.live[id], "id-unique");
  r.live[id] = true; r.tag[id] = tag; r.from[id] = f; r.to[id] = t;
  if ((int)id >= r.n) r.n = (int)id + 1;
}
static inline bool throwsOnGet(G& g, size_t id) { try { g.getEdge(id); return false; } catch (const std::out_of_range&) { return true; } }
