// Path-condition bookkeeping: decisions, solver levels, models, violations.
#pragma once
#include "value.h"
#include "poly.h"
#include <chrono>
#include <functional>
#include <iostream>
#include <set>
namespace sx {
inline double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}
enum Sat { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Dec {
  bool taken;
  bool alt;        // other side still to be explored
  bool isVal = false;
  std::string val; // for value decisions: numeral
  bool branch = false;
};
struct Input { std::string name, kind; z3::expr e; int q; double lo = 0, hi = 0; };  // kind: int real angle fp
struct Violation {
  std::string label, kind, msg;
  std::vector<std::pair<std::string, std::string>> inputs;  // kind, text
};
struct Stats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, fresh = 0;
  double solver_s = 0, max_q = 0;
  uint64_t paths = 0, paths_ok = 0, paths_infeasible = 0, paths_err = 0, decisions = 0, instrs = 0;
  uint64_t checks_concrete = 0, checks_solver = 0, checks_norm = 0, inexact = 0, exact = 0;
  uint64_t obligations = 0, discharged = 0;
};

struct Sym {
  z3::context ctx;
  z3::solver s;
  PolyCtx poly;
  Stats st;
  bool nonlinear = false;
  unsigned feasTO = 3000, checkTO = 20000;
  double deadline = 1e300;
  std::vector<Dec> prefix;   // decisions to replay
  size_t pos = 0;
  size_t levels = 0;         // solver push levels (== decisions asserted)
  size_t keepLevels = 0;     // during replay: levels already asserted
  std::vector<std::pair<size_t, z3::expr>> pc;  // (level, constraint)
  std::unique_ptr<z3::model> mdl;
  bool mdlOK = false;
  unsigned fresh = 0;
  std::vector<Input> inputs;
  std::vector<Poly> rules;
  // Names stand for polynomials. Their definitions are left out of path
  // queries (more paths are explored, none is lost) and added when a
  // candidate or a witness is confirmed.
  std::map<unsigned, Poly> names;
  std::vector<z3::expr> defs;
  bool withDefs = false;
  // With lazy comparisons the nonlinear polynomials that are compared get
  // names; a later one that is a linear combination of earlier ones is
  // written with their names.
  bool lazy = false;
  std::map<Mono, std::pair<Poly, z3::expr>, MonoLess> lazyBasis;
  z3::expr lazyTerm(Poly p) {
    z3::expr sum = ctx.real_val(0);
    auto lead = [](const Poly& q) { auto it = q.end(); --it; unsigned d = 0; for (auto& v : it->first) d += v.second; return d > 1; };
    for (auto it = lazyBasis.rbegin(); it != lazyBasis.rend(); ++it) {
      auto f = p.find(it->first);
      if (f == p.end()) continue;
      Q a = f->second;
      for (auto& t : it->second.first) PolyCtx::add(p, t.first, -a * t.second);
      sum = sum + poly.qexpr(a) * it->second.second;
    }
    if (!p.empty() && lead(p)) {
      Q lc = std::prev(p.end())->second;
      Poly m, rest;
      for (auto& t : p) {
        unsigned d = 0;
        for (auto& v : t.first) d += v.second;
        if (d > 1) m[t.first] = t.second / lc; else rest[t.first] = t.second;
      }
      z3::expr v = freshReal("cmp");
      unsigned id = poly.atom(v);
      names[id] = m;
      defs.push_back(v == poly.toExpr(m));
      PolyCtx::Range r = poly.range(m);
      poly.rng[id] = r;
      if (r.lo > -1e15) assertRaw(v >= poly.qexpr(Q(r.lo - 1e-9 * (1 + std::fabs(r.lo)))));
      if (r.hi < 1e15) assertRaw(v <= poly.qexpr(Q(r.hi + 1e-9 * (1 + std::fabs(r.hi)))));
      lazyBasis.emplace(std::prev(m.end())->first, std::make_pair(m, v));
      sum = sum + poly.qexpr(lc) * v;
      p = rest;
    }
    return (sum + poly.toExpr(p)).simplify();
  }
  Poly expand(const Poly& p) { return names.empty() ? p : poly.reduce(poly.subst(p, names), rules); }
  bool unconfirmed = false;  // some feasibility query was unknown on this path
  std::vector<std::string> inconclusive;

  Sym() : s(ctx, "QF_AUFNIRA"), poly(ctx) { s = z3::solver(ctx); }

  bool replaying() const { return pos < prefix.size(); }
  z3::expr freshReal(const char* p) { return ctx.real_const((std::string(p) + "!" + std::to_string(fresh++)).c_str()); }
  z3::expr freshInt(const char* p) { return ctx.int_const((std::string(p) + "!" + std::to_string(fresh++)).c_str()); }

  void setTO(z3::solver& x, unsigned ms) {
    z3::params p(ctx);
    p.set("timeout", ms);
    x.set(p);
  }
  Sat account(z3::check_result r, double t0) {
    double d = now() - t0;
    st.solver_s += d;
    st.queries++;
    if (d > st.max_q) st.max_q = d;
    if (r == z3::sat) { st.sat++; return SAT; }
    if (r == z3::unsat) { st.unsat++; return UNSAT; }
    st.unknown++;
    return UNKNOWN;
  }
  // decide satisfiability of pc /\ extra
  Sat query(const std::vector<z3::expr>& extra, unsigned to, std::unique_ptr<z3::model>* m) {
    if (now() > deadline) throw OutOfBudget();
    double q0 = now();
    Sat r = UNKNOWN;
    unsigned t1 = nonlinear ? std::min(to, 400u) : to;
    {
      double t0 = now();
      s.push();
      for (auto& e : extra) s.add(e);
      if (withDefs) for (auto& e : defs) s.add(e);
      setTO(s, t1);
      try {
        r = account(s.check(), t0);
        if (r == SAT && m) m->reset(new z3::model(s.get_model()));
      } catch (z3::exception& ex) { r = UNKNOWN; }
      s.pop();
    }
    if (r == UNKNOWN) {
      // one-shot solver: cone-of-influence reduced constraint set first for unsat
      double t0 = now();
      st.fresh++;
      z3::solver f(ctx);
      for (auto& p : pc) f.add(p.second);
      for (auto& e : extra) f.add(e);
      if (withDefs) for (auto& e : defs) f.add(e);
      setTO(f, to);
      try {
        r = account(f.check(), t0);
        if (r == SAT && m) m->reset(new z3::model(f.get_model()));
      } catch (z3::exception& ex) { r = UNKNOWN; }
    }
    static bool slow = getenv("SX_SLOW") != nullptr;
    if (slow && now() - q0 > (atof(getenv("SX_SLOW")))) { std::cerr << "SLOW " << now() - q0 << "s " << (r == SAT ? "sat" : r == UNSAT ? "unsat" : "unknown") << (withDefs ? " defs " : " "); for (auto& e : extra) std::cerr << e.to_string().substr(0, 600) << " & "; std::cerr << std::endl; if (getenv("SX_PC")) for (auto& p : pc) std::cerr << "   PC " << p.first << " " << p.second << "\n"; }
    return r;
  }
  // assert without checking
  void assertRaw(const z3::expr& e) {
    if (replaying()) return;  // already on the retained levels
    s.add(e);
    pc.push_back({levels, e});
    if (mdlOK) {
      z3::expr v = mdl->eval(e, true);
      if (!v.is_true()) mdlOK = false;
    }
  }
  void ensureModel() {
    if (mdlOK) return;
    std::unique_ptr<z3::model> m;
    Sat r = query({}, feasTO, &m);
    if (r == UNSAT) throw PathEnd{"infeasible"};
    if (r == SAT) { mdl = std::move(m); mdlOK = true; }
    else unconfirmed = true;
  }
  void assume(const z3::expr& e0) {
    z3::expr e = e0.simplify();
    if (e.is_true()) return;
    if (e.is_false()) throw PathEnd{"assume"};
    if (replaying()) return;
    assertRaw(e);
    if (!mdlOK) ensureModel();
  }
  void pushDec(const z3::expr& c) {
    s.push();
    levels++;
    s.add(c);
    pc.push_back({levels, c});
  }
  bool decide(const z3::expr& c0) {
    z3::expr c = c0.simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    if (pos < prefix.size()) {
      bool t = prefix[pos].taken, b = prefix[pos].branch;
      replayStep(t ? c : !c);
      if (b) shardEvent(t);
      return t;
    }
    if (now() > deadline) throw OutOfBudget();
    st.decisions++;
    bool side;
    Sat tS = UNKNOWN, fS = UNKNOWN;
    std::unique_ptr<z3::model> other;
    if (!mdlOK) {
      std::unique_ptr<z3::model> m;
      Sat r = query({}, feasTO, &m);
      if (r == UNSAT) throw PathEnd{"infeasible"};
      if (r == SAT) { mdl = std::move(m); mdlOK = true; }
    }
    if (mdlOK) {
      z3::expr v = mdl->eval(c, true);
      if (v.is_true()) tS = SAT;
      else if (v.is_false()) fS = SAT;
      else { mdlOK = false; }
    }
    if (tS != SAT) tS = query({c}, feasTO, &other);
    if (tS == UNSAT && fS == UNKNOWN) fS = mdlOK ? SAT : UNKNOWN;
    if (fS != SAT && !(tS == UNSAT)) {
      std::unique_ptr<z3::model> m2;
      fS = query({!c}, feasTO, &m2);
      if (!mdlOK && m2) { mdl = std::move(m2); mdlOK = true; }
    }
    if (tS == UNSAT && fS == UNSAT) throw PathEnd{"infeasible"};
    if (tS == UNKNOWN || fS == UNKNOWN) unconfirmed = true;
    if (tS == UNSAT) side = false;
    else if (fS == UNSAT) side = true;
    else side = mdlOK ? mdl->eval(c, true).is_true() : true;
    bool alt = tS != UNSAT && fS != UNSAT;
    prefix.push_back(Dec{side, alt});
    prefix.back().branch = alt;
    pos++;
    pushDec(side ? c : !c);
    if (mdlOK) {
      z3::expr v = mdl->eval(side ? c : !c, true);
      if (!v.is_true()) mdlOK = false;
    }
    if (!mdlOK && other && side) { mdl = std::move(other); mdlOK = true; }
    if (alt) shardEvent(side);
    return side;
  }
  void replayStep(const z3::expr& c) {
    pos++;
    if (pos > keepLevels) {  // the flipped decision: assert anew
      pushDec(c);
      mdlOK = false;
    }
  }
  // without a model: fork on the conditions of the choices in the term
  int64_t concretizeTree(z3::expr e) {
    int64_t v;
    while (true) {
      if (e.is_numeral_i64(v)) return v;
      if (!e.is_app()) break;
      z3::expr c(ctx);
      std::vector<z3::expr> st{e};
      bool found = false;
      for (size_t n = 0; !st.empty() && n < 1000 && !found; ++n) {
        z3::expr x = st.back(); st.pop_back();
        if (!x.is_app()) continue;
        if (x.decl().decl_kind() == Z3_OP_ITE) { c = x.arg(0); found = true; break; }
        for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i));
      }
      if (!found) break;
      bool t = decide(c);
      z3::expr_vector from(ctx), to(ctx);
      from.push_back(c); to.push_back(ctx.bool_val(t));
      e = e.substitute(from, to).simplify();
    }
    throw Unsupported{"concretize: no model"};
  }
  // exhaustive enumeration of the values of an Int term
  int64_t concretize(const z3::expr& e0) {
    z3::expr e = e0.simplify();
    int64_t v;
    if (e.is_numeral_i64(v)) return v;
    for (int it = 0; it < 5000; ++it) {
      if (pos < prefix.size() && !prefix[pos].isVal) return concretizeTree(e);
      if (pos < prefix.size()) {
        Dec& d = prefix[pos];
        z3::expr val = ctx.int_val(d.val.c_str());
        bool t = d.taken;
        replayStep(t ? e == val : e != val);
        if (t) { int64_t r = std::stoll(d.val); shardEvent((uint64_t)r); return r; }
        continue;
      }
      st.decisions++;
      ensureModel();
      if (!mdlOK) return concretizeTree(e);
      z3::expr mv = mdl->eval(e, true).simplify();
      if (!mv.is_numeral()) throw Unsupported{"concretize: non numeral"};
      std::string txt = Z3_get_numeral_string(ctx, mv);
      z3::expr val = ctx.int_val(txt.c_str());
      Sat o = query({e != val}, feasTO, nullptr);
      if (o == UNKNOWN) unconfirmed = true;
      Dec d{true, o != UNSAT};
      d.isVal = true;
      d.val = txt;
      prefix.push_back(d);
      pos++;
      pushDec(e == val);
      shardEvent((uint64_t)std::stoll(txt));
      return std::stoll(txt);
    }
    throw Unsupported{"concretize: too many values"};
  }
  // prepare the next path; false when the tree is exhausted
  bool nextPath() {
    prefix.resize(std::min(prefix.size(), pos));
    while (!prefix.empty() && !prefix.back().alt) prefix.pop_back();
    if (prefix.empty()) { popTo(0); return false; }
    prefix.back().taken = !prefix.back().taken;
    prefix.back().alt = false;
    keepLevels = prefix.size() - 1;
    popTo(keepLevels);
    startPath();
    return true;
  }
  void popTo(size_t l) {
    if (levels > l) { s.pop(levels - l); levels = l; }
    while (!pc.empty() && pc.back().first > l) pc.pop_back();
  }
  void startPath() {
    pos = 0;
    fresh = 0;
    inputs.clear();
    rules.clear();
    if (!names.empty()) poly.clear();
    names.clear(); defs.clear(); withDefs = false; lazy = false; lazyBasis.clear();
    mdlOK = false;
    unconfirmed = false;
    nonlinear = false;
    evN = 0;
    evHash = 1469598103934665603ull;
  }
  // Work split: the outcomes of the first shardE branching events of a path
  // decide which worker explores what follows.
  void shardEvent(uint64_t v) {
    if (shardN <= 1 || evN >= shardE) return;
    evHash = (evHash ^ (v + 0x9e3779b97f4a7c15ull)) * 1099511628211ull;
    uint64_t h = evHash;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    if (++evN == shardE && h % shardN != shardK) throw PathEnd{"shard"};
  }
  unsigned shardN = 1, shardK = 0, shardE = 5, evN = 0;
  uint64_t evHash = 0;
  bool shared() const { return shardN > 1 && evN < shardE && shardK != 0; }
};
}  // namespace sx
