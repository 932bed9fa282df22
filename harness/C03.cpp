//@ bound: 3 nodes, up to 3 (quick) / 4 (thorough) initial edges with symbolic endpoints (self loops included), then 2/3 add-or-remove operations
//@ assume: std::vector / std::unique_ptr headers are the installed libstdc++ ones; operator new does not fail
//@ harness: lists budget=200 expect=out-member,in-member,out-size,in-size
//@ harness: dup budget=60 expect=dup-out,dup-in
//@ harness: readback budget=60 expect=rb-pose,rb-inform,rb-state
#include "graph_common.h"
static const int NN = 3;
static void checkLists(G& g, const Ref& r) {
  for (int v = 0; v < NN; ++v) {
    auto& out = g.getNode(v).getEdgesOut();
    auto& in = g.getNode(v).getEdgesIn();
    size_t no = 0, ni = 0;
    for (int i = 0; i < r.n; ++i) {
      if (!r.live[i]) continue;
      E* e = &g.getEdge(i);
      int co = 0, ci = 0;
      for (auto* p : out) co += p == e;
      for (auto* p : in) ci += p == e;
      sx_check(co == (r.from[i] == v), "out-member");
      sx_check(ci == (r.to[i] == v), "in-member");
      no += r.from[i] == v; ni += r.to[i] == v;
    }
    sx_check(out.size() == no, "out-size");
    sx_check(in.size() == ni, "in-size");
    for (auto* p : out) sx_check(p->getFrom() == &g.getNode(v), "out-from");
    for (auto* p : in) sx_check(p->getTo() == &g.getNode(v), "in-to");
  }
}
SX_HARNESS(lists) {
  G g; Ref r;
  for (int i = 0; i < NN; ++i) g.addNode(mkNode(i, i));
  int init = (int)sx_conc(sx_int("init", 1, SX_TIER(2, 3)));
  double tag = 1;
  for (int k = 0; k < init + SX_TIER(2, 3); ++k) {
    if (k < init || sx_bool("add")) {
      int f = (int)sx_conc(sx_int("f", 0, k < 2 ? NN - 1 : 1)), t = (int)sx_conc(sx_int("t", 0, k < 2 ? NN - 1 : 1));
      size_t id = g.addEdge(mkEdge(g, f, t, tag)); refAdd(r, id, tag, f, t); tag += 1;
    } else {
      size_t id = (size_t)sx_conc(sx_int("id", 0, r.n));
      bool was = id < (size_t)r.n && r.live[id];
      sx_check(g.removeEdge(id) == was, "remove");
      if (was) r.live[id] = false;
    }
    checkLists(g, r);
  }
}
SX_HARNESS(dup) {
  G g; Ref r;
  for (int i = 0; i < NN; ++i) g.addNode(mkNode(i, i));
  int f = (int)sx_conc(sx_int("f", 0, 2)), t = (int)sx_conc(sx_int("t", 0, 2));
  size_t a = g.addEdge(mkEdge(g, f, t, 1)); refAdd(r, a, 1, f, t);
  size_t b = g.addEdge(mkEdge(g, f, t, 1)); refAdd(r, b, 1, f, t);
  checkLists(g, r);
  // adding an edge already listed must not list it twice
  E* e = &g.getEdge(sx_bool("second") ? b : a);
  sx_check(!g.getNode(f).addEdgeOut(e), "dup-out");
  sx_check(!g.getNode(t).addEdgeIn(e), "dup-in");
  checkLists(g, r);
  E other = mkEdge(g, f, t, 5);
  sx_check(g.getNode(f).addEdgeOut(&other), "new-out");
  sx_check(g.getNode(t).addEdgeIn(&other), "new-in");
  sx_check(g.getNode(f).getEdgesOut().back() == &other && g.getNode(t).getEdgesIn().back() == &other, "new-listed");
}
SX_HARNESS(readback) {
  G g;
  double x[3], tr[3], inf[9];
  g.addNode(mkNode(0, 0)); g.addNode(mkNode(1, 1));
  for (int i = 0; i < 3; ++i) { x[i] = sx_real("x", -1e6, 1e6); tr[i] = sx_real("t", -1e6, 1e6); }
  for (int i = 0; i < 9; ++i) inf[i] = sx_real("inf", -1e6, 1e6);
  P::Pose p, t; P::InformMatrix m;
  for (int i = 0; i < 3; ++i) { p(i) = x[i]; t(i) = tr[i]; for (int j = 0; j < 3; ++j) m(i, j) = inf[3 * i + j]; }
  E proto(&g.getNode(1), &g.getNode(0), t, m);
  int st = (int)sx_conc(sx_int("state", 0, 3)); bool loop = sx_bool("loop"), used = sx_bool("used");
  sx_check(!proto.isUsed(), "rb-fresh-unused");
  sx_check(proto.getType() == E::ODOM && proto.getState() == E::CONSTRUCTED, "rb-fresh-state");
  proto.setState((E::State)st); proto.setType(loop ? E::LOOP : E::ODOM); proto.setUsed(used);
  size_t id = g.addEdge(std::move(proto));
  g.getNode(0).setPose(p);
  E& e = g.getEdge(id);
  sx_check(e.getState() == (E::State)st && e.getType() == (loop ? E::LOOP : E::ODOM) && e.isUsed() == used, "rb-state");
  for (int i = 0; i < 3; ++i) {
    sx_check(g.getNode(0).getPose()(i) == x[i], "rb-pose");
    sx_check(e.getTransform()(i) == tr[i], "rb-transform");
    for (int j = 0; j < 3; ++j) sx_check(e.getInformationMatrix()(i, j) == inf[3 * i + j], "rb-inform");
  }
  sx_check(e.getFrom() == &g.getNode(1) && e.getTo() == &g.getNode(0), "rb-ends");
  sx_check(g.getNode(1).getPose()(0) == 1 && g.getNode(1).getPose()(1) == 2, "rb-other-pose");
}
