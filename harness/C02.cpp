//@ bound: up to 4 (quick) / 5 (thorough) edges any subset removed (ascending / descending), then 0-2 re-added; up to 4 nodes
//@ bound: all four iterator kinds (node/edge x mutable/const), prefix and postfix increment
//@ assume: std::vector / std::unique_ptr headers are the installed libstdc++ ones; operator new does not fail
//@ harness: edges budget=200 expect=visit-live,visit-all,empty-equal
//@ harness: nodes budget=60 expect=node-order,node-count
//@ harness: steps budget=100 expect=post-returns-old,pre-returns-new
#include "graph_common.h"
// removes a symbolic subset of the edges, re-adds a few
static void mutate(G& g, Ref& r, int maxInit, int readd) {
  g.addNode(mkNode(0, 7)); g.addNode(mkNode(5, 8));
  int init = (int)sx_conc(sx_int("init", 0, maxInit));
  double tag = 100;
  for (int i = 0; i < init; ++i) { size_t id = g.addEdge(mkEdge(g, 0, 1, tag)); refAdd(r, id, tag, 0, 1); tag += 1; }
  bool down = init > 1 && sx_bool("down");
  for (int k = 0; k < init; ++k) {
    int i = down ? init - 1 - k : k;
    if (sx_bool("rm")) { sx_check(g.removeEdge(i), "remove-live"); r.live[i] = false; }
  }
  for (int i = 0; i < readd; ++i)
    if (sx_bool("readd")) { size_t id = g.addEdge(mkEdge(g, 1, 0, tag)); refAdd(r, id, tag, 1, 0); tag += 1; }
}
template <class It> static void walk(It b, It e, const Ref& r, bool post) {
  int seen = 0, last = -1;
  bool vis[Ref::MAX] = {};
  for (int guard = 0; b != e; ++guard) {
    sx_check(guard <= Ref::MAX, "walk-ends");
    int id = (int)(*b).getId();
    sx_check(id >= 0 && id < r.n && r.live[id], "visit-live");
    sx_check(!vis[id], "visit-once");
    sx_check(b->getTransform()(0) == r.tag[id], "visit-data");
    sx_check(id > last, "visit-order");
    vis[id] = true; last = id; ++seen;
    if (post) b++; else ++b;
  }
  sx_check(b == e, "end-equal");
  sx_check(seen == r.count(), "visit-all");
}
SX_HARNESS(edges) {
  G g; Ref r;
  mutate(g, r, SX_TIER(4, 5), 2);
  const G& cg = g;
  walk(g.beginEdge(), g.endEdge(), r, false);
  walk(g.beginEdge(), g.endEdge(), r, true);
  walk(cg.cbeginEdge(), cg.cendEdge(), r, false);
  walk(cg.cbeginEdge(), cg.cendEdge(), r, true);
  if (r.count() == 0) {
    sx_check(g.beginEdge() == g.endEdge(), "empty-equal");
    sx_check(cg.cbeginEdge() == cg.cendEdge(), "empty-equal");
  } else {
    sx_check(!(g.beginEdge() == g.endEdge()), "nonempty-differ");
    sx_check(!(cg.cbeginEdge() == cg.cendEdge()), "nonempty-differ");
  }
}
SX_HARNESS(nodes) {
  G g;
  int n = (int)sx_conc(sx_int("n", 0, 4));
  for (int i = 0; i < n; ++i) g.addNode(mkNode(i, 50 + i));
  const G& cg = g;
  int k = 0;
  for (auto it = g.beginNode(); it != g.endNode(); ++it, ++k) {
    sx_check(k < n, "node-walk-ends");
    sx_check(it->getId() == (size_t)k && (*it).getDataObj() == 50 + k, "node-order");
  }
  sx_check(k == n, "node-count");
  k = 0;
  for (auto it = cg.cbeginNode(); it != cg.cendNode(); it++, ++k) {
    sx_check(k < n, "cnode-walk-ends");
    sx_check(it->getId() == (size_t)k && (*it).getDataObj() == 50 + k, "cnode-order");
  }
  sx_check(k == n, "cnode-count");
  // a mutation through the iterator is a mutation of the stored node
  if (n > 0) {
    for (auto it = g.beginNode(); it != g.endNode(); ++it) it->setVisited(true);
    for (int i = 0; i < n; ++i) sx_check(g.getNode(i).isVisited(), "node-write");
  }
}
SX_HARNESS(steps) {
  G g; Ref r;
  mutate(g, r, 3, 0);
  if (r.count() < 2) return;
  int ids[Ref::MAX], m = 0;
  for (int i = 0; i < r.n; ++i) if (r.live[i]) ids[m++] = i;
  auto a = g.beginEdge();
  auto o = a++;
  sx_check((int)o->getId() == ids[0], "post-returns-old");
  sx_check((int)a->getId() == ids[1], "post-advances");
  auto b = g.beginEdge();
  auto q = ++b;
  sx_check((int)q->getId() == ids[1] && (int)b->getId() == ids[1], "pre-returns-new");
  sx_check(a == b && !(a != b) && o != a, "iter-equality");
  const G& cg = g;
  auto ca = cg.cbeginEdge();
  auto co = ca++;
  sx_check((int)co->getId() == ids[0], "cpost-returns-old");
  sx_check((int)ca->getId() == ids[1], "cpost-advances");
  auto cb = cg.cbeginEdge();
  auto cq = ++cb;
  sx_check((int)cq->getId() == ids[1] && (int)cb->getId() == ids[1], "cpre-returns-new");
  sx_check(ca == cb && !(ca != cb) && co != ca, "citer-equality");
}
