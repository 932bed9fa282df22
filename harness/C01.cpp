//@ bound: histories of 1-4 initial edges followed by 4 (quick) / 5 (thorough) operations, each add / remove(id) with id symbolic in [0, size+2]; 2 nodes
//@ bound: far-out ids: one removal or lookup with a symbolic id up to 2^40
//@ assume: std::vector / std::unique_ptr headers are the installed libstdc++ ones; operator new does not fail
//@ harness: history mode=real budget=200 expect=count,lookup,get-removed,remove-dead
//@ harness: far_ids budget=60 expect=far-remove,far-get,far-node
//@ harness: nodes budget=60 expect=node-id,node-obj
#include "graph_common.h"
SX_HARNESS(history) {
  G g; Ref r;
  g.addNode(mkNode(0, 7)); g.addNode(mkNode(5, 8));
  int init = (int)sx_conc(sx_int("init", 1, 4));
  double tag = 100;
  for (int i = 0; i < init; ++i) { size_t id = g.addEdge(mkEdge(g, 0, 1, tag)); refAdd(r, id, tag, 0, 1); tag += 1; }
  for (int k = 0; k < SX_TIER(4, 5); ++k) {
    if (sx_bool("add")) {
      size_t id = g.addEdge(mkEdge(g, 0, 1, tag)); refAdd(r, id, tag, 0, 1); tag += 1;
    } else {
      size_t id = (size_t)sx_conc(sx_int("id", 0, r.n + 2));
      bool was = id < (size_t)r.n && r.live[id];
      bool ok = g.removeEdge(id);
      sx_check(ok == was, "remove-dead");
      if (was) r.live[id] = false;
    }
    sx_check(g.edgeCount() == (size_t)r.count(), "count");
  }
  const G& cg = g;
  for (int i = 0; i < r.n + 2; ++i) {
    bool live = i < r.n && r.live[i];
    sx_check(throwsOnGet(g, i) == !live, "get-removed");
    bool cthrow = false;
    try { cg.getEdge(i); } catch (const std::out_of_range&) { cthrow = true; }
    sx_check(cthrow == !live, "cget-removed");
    if (live) {
      E& e = g.getEdge(i);
      sx_check(e.getId() == (size_t)i, "edge-id");
      sx_check(e.getTransform()(0) == r.tag[i], "lookup");
      sx_check(cg.getEdge(i).getTransform()(0) == r.tag[i], "clookup");
      sx_check(e.getFrom()->getId() == 0 && e.getTo()->getId() == 1, "ends");
    }
  }
  sx_check(g.nodeCount() == 2, "node-count");
}
SX_HARNESS(far_ids) {
  G g;
  g.addNode(mkNode(0, 7)); g.addNode(mkNode(5, 8));
  int init = (int)sx_conc(sx_int("init", 0, 3));
  for (int i = 0; i < init; ++i) g.addEdge(mkEdge(g, 0, 1, i));
  size_t id = (size_t)sx_int("id", init, 1L << 40);
  sx_check(throwsOnGet(g, id), "far-get");
  sx_check(!g.removeEdge(id), "far-remove");
  bool t = false;
  size_t nid = (size_t)sx_int("nid", 2, 1L << 40);
  try { g.getNode(nid); } catch (const std::out_of_range&) { t = true; }
  sx_check(t, "far-node");
  sx_check(g.edgeCount() == (size_t)init, "far-count");
  for (int i = 0; i < init; ++i) sx_check(g.getEdge(i).getTransform()(0) == i, "far-kept");
}
SX_HARNESS(nodes) {
  G g;
  int n = (int)sx_conc(sx_int("n", 1, 6));
  for (int i = 0; i < n; ++i) {
    N nd = mkNode(i, 50 + i);
    if (sx_bool("preset")) nd.setId(9999);
    size_t id = g.addNode(std::move(nd));
    sx_check(id == (size_t)i, "node-id");
  }
  for (int i = 0; i < n; ++i) {
    sx_check(g.getNode(i).getId() == (size_t)i, "node-stored-id");
    sx_check(g.getNode(i).getDataObj() == 50 + i, "node-obj");
    sx_check(g.getNode(i).getPose()(0) == i, "node-pose");
  }
  sx_check(g.nodeCount() == (size_t)n, "node-count");
}
