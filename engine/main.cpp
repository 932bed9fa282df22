#include "machine.h"
#include <fstream>
#include <sstream>
#include <iomanip>
namespace sx {
// Exact evaluation of a term at algebraic numbers can take forever: such models
// are evaluated in double precision (they only become inputs of a native run
// and observations compared with a tolerance).
static bool algebraicModel(z3::model& m) {
  for (unsigned i = 0; i < m.num_consts(); ++i) if (m.get_const_interp(m.get_const_decl(i)).is_algebraic()) return true;
  return false;
}
struct DoubleEval {
  z3::model& m;
  std::unordered_map<unsigned, double> memo;
  bool ok = true;
  double numeral(const z3::expr& e) {
    if (e.is_algebraic()) { std::string s = Z3_get_numeral_decimal_string(e.ctx(), e, 25); if (!s.empty() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }
    if (e.is_numeral()) return PolyCtx::num(e).convert_to<double>();
    if (e.is_true()) return 1;
    if (e.is_false()) return 0;
    ok = false;
    return NAN;
  }
  double go(const z3::expr& e) {
    auto it = memo.find(e.id());
    if (it != memo.end()) return it->second;
    double r = calc(e);
    memo[e.id()] = r;
    return r;
  }
  double calc(const z3::expr& e) {
    if (!ok) return NAN;
    if (e.is_numeral() || e.is_algebraic() || e.is_true() || e.is_false()) return numeral(e);
    if (!e.is_app()) { ok = false; return NAN; }
    unsigned n = e.num_args();
    auto k = e.decl().decl_kind();
    if (n == 0) return numeral(m.eval(e, true));
    auto a = [&](unsigned i) { return go(e.arg(i)); };
    switch (k) {
      case Z3_OP_ADD: { double r = 0; for (unsigned i = 0; i < n; ++i) r += a(i); return r; }
      case Z3_OP_MUL: { double r = 1; for (unsigned i = 0; i < n; ++i) r *= a(i); return r; }
      case Z3_OP_SUB: { double r = a(0); for (unsigned i = 1; i < n; ++i) r -= a(i); return r; }
      case Z3_OP_UMINUS: return -a(0);
      case Z3_OP_DIV: { double x = a(0), y = a(1); if (y == 0) ok = false; return x / y; }
      case Z3_OP_POWER: { double x = a(0), y = a(1); return std::pow(x, y); }
      case Z3_OP_TO_REAL: return a(0);
      case Z3_OP_TO_INT: return std::floor(a(0));
      case Z3_OP_ITE: return a(0) != 0 ? a(1) : a(2);
      case Z3_OP_LE: { double x = a(0), y = a(1); return x <= y; }
      case Z3_OP_LT: { double x = a(0), y = a(1); return x < y; }
      case Z3_OP_GE: { double x = a(0), y = a(1); return x >= y; }
      case Z3_OP_GT: { double x = a(0), y = a(1); return x > y; }
      case Z3_OP_EQ: { double x = a(0), y = a(1); return x == y; }
      case Z3_OP_NOT: return a(0) == 0;
      case Z3_OP_AND: for (unsigned i = 0; i < n; ++i) if (a(i) == 0) return 0; return 1;
      case Z3_OP_OR: for (unsigned i = 0; i < n; ++i) if (a(i) != 0) return 1; return 0;
      default: ok = false; return NAN;
    }
  }
};
double Machine::evalReal(z3::model& m, Val v, unsigned w) {
  if (v.conc()) return A.cd(v, w);
  if (v.undef()) return NAN;
  if (v.is(K_FP)) {
    z3::expr e = m.eval(*v.n->e, true);
    z3::expr bv(S.ctx, Z3_mk_fpa_to_ieee_bv(S.ctx, e));
    bv = bv.simplify();
    uint64_t u = 0;
    if (bv.is_numeral_u64(u)) return w == 32 ? asF(u) : asD(u);
    return NAN;
  }
  if (v.n->e->num_args() > 0 && algebraicModel(m)) {
    DoubleEval d{m};
    double r = d.go(*v.n->e);
    if (d.ok) return r;
  }
  z3::expr e = m.eval(*v.n->e, true).simplify();
  if (e.is_int()) e = z3::to_real(e).simplify();
  std::string s;
  if (e.is_algebraic()) s = Z3_get_numeral_decimal_string(S.ctx, e, 25);
  else if (e.is_numeral()) { Q q = PolyCtx::num(e); return q.convert_to<double>(); }
  else return NAN;
  if (!s.empty() && s.back() == '?') s.pop_back();
  return strtod(s.c_str(), nullptr);
}
// t + 2*pi*k closest to d, inside [lo, hi] when possible
static double nearTurn(double t, double d, double lo, double hi) {
  double best = t + 2 * M_PI * std::round((d - t) / (2 * M_PI));
  if (best >= lo && best <= hi) return best;
  for (double k = -8; k <= 8; ++k) {
    double x = t + 2 * M_PI * k;
    if (x >= lo && x <= hi) return x;
  }
  return best;
}
// The solver knows sin/cos/atan2/exp/log only through axioms, so a model may
// assign an angle and its sine independently. Look for a model in which they
// agree with the real functions (to 1e-9), so that it can be replayed.
bool Machine::refineModel(const std::vector<z3::expr>& extra, std::unique_ptr<z3::model>& m) {
  struct Defs { Sym& S; ~Defs() { S.withDefs = false; } } dg{S};
  S.withDefs = !S.defs.empty();
  if (A.atoms.empty() && A.exps.empty() && A.logs.empty()) return m != nullptr;
  if (++refineN > 400) return false;
  static const double pool[] = {0.3, -1.1, 2.2, 0.9, -2.4, 1.6, -0.2, 2.9, -1.8};
  auto num = [&](z3::model& mm, const z3::expr& e) { Node n(K_REAL); n.e.reset(new z3::expr(e)); return evalReal(mm, Val(&n), 64); };
  auto inputOf = [&](const z3::expr& a) -> const Input* {
    for (auto& in : S.inputs) if (in.kind == "angle" && z3::eq(in.e, a)) return &in;
    return nullptr;
  };
  unsigned rot = 0;
  for (int att = m ? 0 : 1; att < 5; ++att) {
    std::vector<z3::expr> pin = extra;
    bool any = false;
    for (auto& at : A.atoms) {
      const Input* in = inputOf(at.arg);
      if (!in) continue;
      any = true;
      double t;
      if (att == 0) t = nearTurn(std::atan2(num(*m, at.s), num(*m, at.c)), num(*m, at.arg), in->lo, in->hi);
      else {
        t = pool[(rot++ + refineN) % 9];
        if (t < in->lo || t > in->hi) t = in->lo + (in->hi - in->lo) * (0.15 + 0.1 * (rot % 8));
      }
      double h = std::tan(t / 2);
      if (!std::isfinite(t) || std::fabs(h) > 1e6) continue;
      h = std::round(h * 1048576.0) / 1048576.0;
      double k = std::round((t - 2 * std::atan(h)) / (2 * M_PI));
      t = 2 * std::atan(h) + 2 * M_PI * k;
      z3::expr H = A.dval(h), one = S.ctx.real_val(1);
      pin.push_back(at.arg == A.dval(t));
      pin.push_back(at.s == (H * 2 / (one + H * H)).simplify());
      pin.push_back(at.c == ((one - H * H) / (one + H * H)).simplify());
    }
    if (m && !S.defs.empty())
      for (auto& in : S.inputs) {
        if (in.kind != "real") continue;
        Node n(K_REAL);
        n.e.reset(new z3::expr(in.e));
        pin.push_back(in.e == A.dval(evalReal(*m, Val(&n), 64)));
      }
    std::unique_ptr<z3::model> m1;
    if (any) { if (S.query(pin, S.withDefs || S.nonlinear ? 600 : 3000, &m1) != SAT) { if (att == 0 || any) continue; } }
    else if (att > 0) return false;
    else m1.reset(new z3::model(*m));
    if (!m1) continue;
    // derived angles, exponentials, logarithms
    bool derived = false;
    z3::expr eps = S.ctx.real_val("1/1000000000");
    auto near = [&](const z3::expr& e, double v) { z3::expr x = A.dval(v); pin.push_back(e - x <= eps && x - e <= eps); };
    for (auto& at : A.atoms) {
      if (inputOf(at.arg)) continue;
      double d = num(*m1, at.arg), s = num(*m1, at.s), c = num(*m1, at.c);
      if (!std::isfinite(d + s + c)) continue;
      double t = nearTurn(std::atan2(s, c), d, -1e9, 1e9);
      if (std::fabs(t - d) < 1e-9) continue;
      derived = true;
      near(at.arg, t); near(at.s, s); near(at.c, c);
    }
    for (auto& p : A.exps) {
      double x = num(*m1, p.first), r = num(*m1, p.second);
      if (!std::isfinite(x) || x > 30) continue;
      if (std::fabs(std::exp(x) - r) >= 1e-9) derived = true;
      near(p.first, x); near(p.second, std::exp(x));
    }
    for (auto& p : A.logs) {
      double x = num(*m1, p.first), r = num(*m1, p.second);
      if (!std::isfinite(x) || x <= 0) continue;
      if (std::fabs(std::log(x) - r) >= 1e-9) derived = true;
      near(p.first, x); near(p.second, std::log(x));
    }
    if (!derived) { m = std::move(m1); return true; }
    std::unique_ptr<z3::model> m2;
    if (S.query(pin, S.withDefs || S.nonlinear ? 600 : 3000, &m2) == SAT) { m = std::move(m2); return true; }
    if (att == 4 || !any) { if (any) m = std::move(m1); return false; }
  }
  return false;
}
// The definitions of names and the products among the rules are hard for the
// solver while the inputs are open: first try a few fixed inputs.
// Where the solver cannot decide an obligation: inputs that follow the path, for
// the native replay to try. Without a replayed failure nothing is reported.
void Machine::guess(const std::string& label) {
  if (guessN[label] >= 12) return;
  struct Defs { Sym& S; ~Defs() { S.withDefs = false; } } dg{S};
  S.withDefs = false;
  for (int att = 0, got = 0; att < 8 && got < 2; ++att) {
    std::vector<z3::expr> q;
    for (auto& in : S.inputs) {
      if (in.kind != "real") continue;
      rng = rng * 6364136223846793005ull + 1442695040888963407ull;
      double v = in.lo + (in.hi - in.lo) * ((rng >> 40) % 257) / 256.0;
      if (att % 2) v /= 8;
      if (v < in.lo || v > in.hi) v = in.lo;
      q.push_back(in.e == A.dval(v));
    }
    std::unique_ptr<z3::model> x;
    if (S.query(q, 300, &x) != SAT) continue;
    ++got;
    ++guessN[label];
    Violation v{label, "guess", "undecided at " + where(), {}};
    v.inputs = modelInputs(*x);
    viol.push_back(v);
  }
}
Sat Machine::confirm(const std::vector<z3::expr>& extra, unsigned to, std::unique_ptr<z3::model>& m) {
  struct Defs { Sym& S; ~Defs() { S.withDefs = false; } } dg{S};
  S.withDefs = true;
  z3::model* base = m ? m.get() : S.mdlOK ? S.mdl.get() : nullptr;
  for (int att = 0; att < 6; ++att) {
    if (att == 0 && !base) continue;
    std::vector<z3::expr> q = extra;
    for (auto& in : S.inputs) {
      if (in.kind != "real") continue;
      double v;
      if (att == 0) {
        Node n(K_REAL);
        n.e.reset(new z3::expr(in.e));
        v = evalReal(*base, Val(&n), 64);
      } else {
        rng = rng * 6364136223846793005ull + 1442695040888963407ull;
        v = in.lo + (in.hi - in.lo) * ((rng >> 40) % 257) / 256.0;
        double r = std::round(v * 8) / 8;
        if (r >= in.lo && r <= in.hi) v = r;
      }
      q.push_back(in.e == A.dval(v));
    }
    if (S.lazy)
      for (auto& at : A.atoms)
        for (auto& in : S.inputs) {
          if (in.kind != "angle" || !z3::eq(in.e, at.arg)) continue;
          double t;
          if (att == 0) { Node n(K_REAL); n.e.reset(new z3::expr(in.e)); t = evalReal(*base, Val(&n), 64); }
          else { rng = rng * 6364136223846793005ull + 1442695040888963407ull; t = in.lo + (in.hi - in.lo) * ((rng >> 40) % 257) / 256.0; }
          double h = std::tan(t / 2);
          if (!std::isfinite(h) || std::fabs(h) > 1e6) continue;
          h = std::round(h * 1048576.0) / 1048576.0;
          t = 2 * std::atan(h) + 2 * M_PI * std::round((t - 2 * std::atan(h)) / (2 * M_PI));
          z3::expr H = A.dval(h), one = S.ctx.real_val(1);
          q.push_back(at.arg == A.dval(t));
          q.push_back(at.s == (H * 2 / (one + H * H)).simplify());
          q.push_back(at.c == ((one - H * H) / (one + H * H)).simplify());
        }
    std::unique_ptr<z3::model> x;
    if (S.query(q, 500, &x) == SAT) { m = std::move(x); return SAT; }
  }
  std::unique_ptr<z3::model> x;
  Sat r = S.query(extra, to, &x);
  if (r == SAT) m = std::move(x);
  return r;
}
std::vector<std::pair<std::string, std::string>> Machine::modelInputs(z3::model& m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto& in : S.inputs) {
    char buf[64];
    if (in.kind == "int" || in.kind == "fix") {
      z3::expr e = m.eval(in.e, true).simplify();
      std::string t = e.is_numeral() ? Z3_get_numeral_string(S.ctx, e) : "0";
      if (in.kind == "fix") { snprintf(buf, sizeof buf, "%a", std::ldexp((double)strtoll(t.c_str(), nullptr, 10), in.q)); t = buf; }
      r.push_back({in.name, t});
    } else if (in.kind == "f64") {
      z3::expr bv(S.ctx, Z3_mk_fpa_to_ieee_bv(S.ctx, m.eval(in.e, true)));
      bv = bv.simplify();
      uint64_t u = 0;
      bv.is_numeral_u64(u);
      snprintf(buf, sizeof buf, "%a", asD(u));
      r.push_back({in.name, buf});
    } else {
      Node n(K_REAL);
      n.e.reset(new z3::expr(in.e));
      double d = evalReal(m, Val(&n), 64);
      if (in.kind == "angle")
        for (auto& at : A.atoms)
          if (z3::eq(at.arg, in.e)) {
            Node ns(K_REAL), nc(K_REAL);
            ns.e.reset(new z3::expr(at.s)); nc.e.reset(new z3::expr(at.c));
            double t = std::atan2(evalReal(m, Val(&ns), 64), evalReal(m, Val(&nc), 64));
            d = nearTurn(t, d, in.lo, in.hi);
          }
      snprintf(buf, sizeof buf, "%a", d);
      r.push_back({in.name, buf});
    }
  }
  return r;
}
void Machine::recordViolation(const std::string& label, const std::string& kind, const std::string& msg, z3::model* m) {
  if (violN[label + kind]++ >= 6) return;
  Violation v{label, kind, msg, {}};
  std::unique_ptr<z3::model> own;
  if (!m && !S.names.empty()) {  // the path itself must be possible with the definitions
    std::unique_ptr<z3::model> x;
    Sat r = confirm({}, S.checkTO, x);
    if (r == UNSAT) { violN[label + kind]--; if (kind.compare(0, 5, "check") == 0) { S.st.checks_solver++; S.st.discharged++; } return; }
    if (r == SAT) { refineModel({}, x); own = std::move(x); }
    else if (S.mdlOK) { own.reset(new z3::model(*S.mdl)); if (!refineModel({}, own)) own.reset(); }
    m = own.get();
  } else if (!m) {
    if (!S.mdlOK) { std::unique_ptr<z3::model> x; if (S.query({}, S.checkTO, &x) == SAT) own = std::move(x); }
    else own.reset(new z3::model(*S.mdl));
    if (own) refineModel({}, own);
    m = own.get();
  }
  if (m) v.inputs = modelInputs(*m);
  else { S.inconclusive.push_back(label + ": no model for " + kind); violN[label + kind]--; guess(label); return; }
  viol.push_back(v);
}
void Machine::check(Val c, const std::string& label) {
  checkN[label]++;
  if (!S.replaying()) S.st.obligations++;
  trace += "C:" + label + ";";
  if (c.undef()) throw PathError{"uninit", "check " + label + " depends on uninitialised value"};
  if (c.conc()) {
    if (c.c & 1) { if (!S.replaying()) { S.st.checks_concrete++; S.st.discharged++; } return; }
    S.ensureModel();
    recordViolation(label, "check", where(), nullptr);
    throw PathEnd{"violated"};
  }
  z3::expr e = A.bexpr(c);
  if (S.replaying()) return;  // decided on an earlier path with the same prefix
  std::unique_ptr<z3::model> m;
  if (S.mdlOK && S.mdl->eval(e, true).is_false()) { m.reset(new z3::model(*S.mdl)); }
  Sat r = m ? SAT : S.query({!e}, S.checkTO, &m);
  if (r != UNSAT && !S.defs.empty()) r = confirm({!e}, S.checkTO, m);
  if (r == UNSAT) { S.st.checks_solver++; S.st.discharged++; if (!S.defs.empty()) S.assume(e); return; }
  if (r == SAT) { refineModel({!e}, m); recordViolation(label, "check", where(), m.get()); }
  else if (refineModel({!e}, m)) recordViolation(label, "check", where(), m.get());
  else { S.inconclusive.push_back(label + ": solver gave no answer"); guess(label); }
  S.assume(e);
}
void Machine::checkEq(Val a, Val b, double tol, const std::string& label) {
  checkN[label]++;
  if (!S.replaying()) S.st.obligations++;
  trace += "E:" + label + ";";
  obs.push_back({label, a});
  if (a.undef() || b.undef()) throw PathError{"uninit", "check " + label + " depends on uninitialised value"};
  if (a.conc() && b.conc()) {
    double x = asD(a.c), y = asD(b.c);
    bool ok = x == y || std::fabs(x - y) <= tol * std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
    if (ok) { if (!S.replaying()) { S.st.checks_concrete++; S.st.discharged++; } return; }
    S.ensureModel();
    recordViolation(label, "check-eq", "got " + std::to_string(x) + " expected " + std::to_string(y) + " at " + where(), nullptr);
    throw PathEnd{"violated"};
  }
  if (S.replaying()) return;
  if (a.is(K_FP) || b.is(K_FP)) {
    z3::expr x = A.fexpr(a, 64), y = A.fexpr(b, 64);
    z3::expr e = z3::expr(S.ctx, Z3_mk_fpa_eq(S.ctx, x, y));
    std::unique_ptr<z3::model> m;
    Sat r = S.query({!e}, S.checkTO, &m);
    if (r == UNSAT) { S.st.checks_solver++; S.st.discharged++; return; }
    if (r == SAT) recordViolation(label, "check-eq", where(), m.get());
    else { S.inconclusive.push_back(label + ": solver gave no answer"); guess(label); }
    S.assume(e);
    return;
  }
  for (const Val& v : {a, b})
    if (v.conc() && !std::isfinite(asD(v.c))) {
      S.ensureModel();
      recordViolation(label, "check-eq", "non-finite value at " + where(), nullptr);
      throw PathEnd{"violated"};
    }
  z3::expr diff = (A.rexpr(a, 64) - A.rexpr(b, 64));
  z3::expr d = diff;
  try {
    Poly p = S.poly.reduce(S.poly.of(diff.simplify()), S.rules);
    if (!p.empty()) p = S.expand(p);
    if (p.empty() || S.poly.bound(p) <= tol / 10) { S.st.checks_norm++; S.st.discharged++; return; }
    if (p.size() < 400) d = S.poly.toExpr(p);
  } catch (PolyTooBig&) {}
  std::unique_ptr<z3::model> m;
  auto ask = [&](const z3::expr& e, std::unique_ptr<z3::model>& x) { return S.defs.empty() ? S.query({e}, S.checkTO, &x) : confirm({e}, S.checkTO, x); };
  Sat r = ask(d != 0, m);
  if (r == UNSAT) { S.st.checks_solver++; S.st.discharged++; return; }
  // look for a robust counterexample: inputs of moderate size, clear gap
  z3::expr gap = S.ctx.real_val("1/1000");
  std::unique_ptr<z3::model> m2;
  Sat r2 = ask(d > gap || d < -gap, m2);
  if (r2 == SAT) { refineModel({d > gap || d < -gap}, m2); recordViolation(label, "check-eq", where(), m2.get()); S.assume(d == 0); return; }
  z3::expr t = A.dval(tol);
  Sat r3 = r2 == UNSAT && tol >= 1e-3 ? UNSAT : ask(d > t || d < -t, m2);
  if (r3 == UNSAT) { S.st.checks_solver++; S.st.discharged++; return; }
  if (r3 == SAT) { refineModel({d > t || d < -t}, m2); recordViolation(label, "check-eq", where(), m2.get()); }
  else if (r == SAT) { refineModel({d != 0}, m); recordViolation(label, "check-eq", where(), m.get()); }
  else if (refineModel({d > gap || d < -gap}, m)) recordViolation(label, "check-eq", where(), m.get());
  else { S.inconclusive.push_back(label + ": solver gave no answer"); guess(label); }
}
void Machine::finishPath() {
  S.st.paths_ok++;
  if (wit.size() < 24 || (S.st.paths_ok % 97 == 0 && wit.size() < 40)) {
    try {
      if (!S.defs.empty()) {
        if (++witTries > 12) return;
        std::unique_ptr<z3::model> x;
        if (confirm({}, 500, x) != SAT) return;
        S.mdl = std::move(x);
        S.mdlOK = true;
      }
      if (!S.mdlOK) { std::unique_ptr<z3::model> x; if (S.query({}, S.feasTO, &x) == SAT) { S.mdl = std::move(x); S.mdlOK = true; } }
      if (S.mdlOK) {
        Witness w;
        std::unique_ptr<z3::model> wm(new z3::model(*S.mdl));
        bool faithful = refineModel({}, wm);
        w.inputs = modelInputs(*wm);
        w.trace = trace;
        for (auto& o : obs) w.obs.push_back({o.first, evalReal(*wm, o.second, 64)});
        if (faithful) wit.push_back(w);
        else witUnfaithful++;
      }
    } catch (OutOfBudget&) {}
  }
}
void Machine::explore(const Function* F) {
  S.startPath();
  std::vector<const Function*> ctors;
  if (auto* gv = M->getNamedGlobal("llvm.global_ctors"))
    if (gv->hasInitializer())
      if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer())) {
        std::vector<std::pair<uint64_t, const Function*>> v;
        for (auto& u : ca->operands())
          if (auto* f = dyn_cast<Function>(cast<Constant>(u)->getAggregateElement(1u))) v.push_back({cast<ConstantInt>(cast<Constant>(u)->getAggregateElement(0u))->getZExtValue(), f});
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : v) ctors.push_back(p.second);
      }
  bool more = true;
  while (more) {
    auto saved = S.st;
    S.st.paths++;
    objs.clear();
    objs.resize(nGlobSlots);
    stack.clear();
    A.resetPath();
    steps = 0;
    excObj = excTI = 0;
    caught.clear();
    trace.clear();
    obs.clear();
    try {
      for (auto* c : ctors) run(c, {});
      steps = 0;
      run(F, {});
      finishPath();
    } catch (PathEnd& e) {
      if (e.why == "shard") {
        auto q = S.st;
        S.st = saved;
        S.st.instrs = q.instrs; S.st.queries = q.queries; S.st.sat = q.sat; S.st.unsat = q.unsat; S.st.unknown = q.unknown; S.st.solver_s = q.solver_s; S.st.max_q = q.max_q;
      }
      else if (e.why == "ok") finishPath();
      else S.st.paths_infeasible++;
    } catch (PathError& e) {
      S.st.paths_err++;
      try {
        bool feas = true;
        if (!S.mdlOK) { std::unique_ptr<z3::model> x; Sat r = S.query({}, S.checkTO, &x); feas = r != UNSAT; if (r == SAT) { S.mdl = std::move(x); S.mdlOK = true; } }
        if (feas) {
          std::unique_ptr<z3::model> em;
          if (S.mdlOK) { em.reset(new z3::model(*S.mdl)); refineModel({}, em); }
          recordViolation(e.kind, e.kind, e.msg + " at " + where(), em.get());
        }
      } catch (OutOfBudget&) { S.inconclusive.push_back("budget"); break; }
    } catch (Unsupported& e) {
      S.inconclusive.push_back("unsupported: " + e.msg + " at " + where());
    } catch (OutOfBudget&) {
      S.inconclusive.push_back("budget");
      break;
    } catch (z3::exception& e) {
      S.inconclusive.push_back(std::string("z3: ") + e.msg());
    }
    if (S.shared()) {  // explored by every worker, counted by the first
      auto q = S.st;
      S.st = saved;
      S.st.instrs = q.instrs; S.st.queries = q.queries; S.st.sat = q.sat; S.st.unsat = q.unsat; S.st.unknown = q.unknown; S.st.solver_s = q.solver_s; S.st.max_q = q.max_q;
    }
    if (viol.size() >= 24 || S.inconclusive.size() > 200) break;
    more = S.nextPath();
  }
  if (more && viol.size() < 24 && S.inconclusive.empty()) S.inconclusive.push_back("not exhausted");
}
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string jn(double d) { if (!std::isfinite(d)) return "null"; char b[40]; snprintf(b, 40, "%.17g", d); return b; }
}  // namespace sx
using namespace sx;
int main(int argc, char** argv) {
  std::string bc = argv[1], fn = argv[2], out = argv[3];
  std::string mode = "real";
  double budget = 60;
  uint64_t maxSteps = 4000000;
  unsigned cto = 20000, fto = 3000, shardN = 1, shardK = 0, shardE = 5;
  for (int i = 4; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "mode") mode = v;
    if (k == "budget") budget = atof(v.c_str());
    if (k == "steps") maxSteps = strtoull(v.c_str(), 0, 10);
    if (k == "cto") cto = atoi(v.c_str());
    if (k == "fto") fto = atoi(v.c_str());
    if (k == "shardn") shardN = atoi(v.c_str());
    if (k == "shardk") shardK = atoi(v.c_str());
    if (k == "sharde") shardE = atoi(v.c_str());
  }
  LLVMContext L;
  SMDiagnostic err;
  auto M = parseIRFile(bc, err, L);
  if (!M) { err.print("symex", llvm::errs()); return 2; }
  Machine m;
  m.modeName = mode;
  m.maxSteps = maxSteps;
  m.S.checkTO = cto;
  m.S.feasTO = fto;
  m.S.shardN = shardN; m.S.shardK = shardK; m.S.shardE = shardE;
  double t0 = now();
  m.S.deadline = t0 + budget;
  m.load(std::move(M));
  m.registerBuiltins();
  auto* F = m.M->getFunction(fn);
  if (!F) { std::cerr << "no function " << fn << "\n"; return 2; }
  m.explore(F);
  std::ofstream o(out);
  auto& s = m.S.st;
  o << "{\"harness\":" << js(fn) << ",\"mode\":" << js(mode) << ",\"wall_s\":" << jn(now() - t0);
  o << ",\"stats\":{\"paths\":" << s.paths << ",\"paths_ok\":" << s.paths_ok << ",\"paths_infeasible\":" << s.paths_infeasible << ",\"paths_err\":" << s.paths_err
    << ",\"decisions\":" << s.decisions << ",\"instrs\":" << s.instrs << ",\"queries\":" << s.queries << ",\"sat\":" << s.sat << ",\"unsat\":" << s.unsat
    << ",\"unknown\":" << s.unknown << ",\"solver_s\":" << jn(s.solver_s) << ",\"max_query_s\":" << jn(s.max_q) << ",\"obligations\":" << s.obligations
    << ",\"discharged\":" << s.discharged << ",\"by_constant_folding\":" << s.checks_concrete << ",\"by_solver\":" << s.checks_solver << ",\"by_normal_form\":" << s.checks_norm
    << ",\"real_ops_exact_in_ieee\":" << s.exact << ",\"real_ops_inexact\":" << s.inexact << "}";
  o << ",\"checks\":{";
  bool f = true;
  for (auto& p : m.checkN) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
  o << "},\"reach\":{";
  f = true;
  for (auto& p : m.reach) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
  o << "},\"inconclusive\":[";
  f = true;
  std::map<std::string, int> inc;
  for (auto& p : m.S.inconclusive) inc[p]++;
  for (auto& p : inc) { o << (f ? "" : ",") << js(p.first + (p.second > 1 ? " (x" + std::to_string(p.second) + ")" : "")); f = false; }
  o << "],\"violations\":[";
  f = true;
  for (auto& v : m.viol) {
    o << (f ? "" : ",") << "{\"label\":" << js(v.label) << ",\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"inputs\":[";
    bool g = true;
    for (auto& p : v.inputs) { o << (g ? "" : ",") << "[" << js(p.first) << "," << js(p.second) << "]"; g = false; }
    o << "]}";
    f = false;
  }
  o << "],\"witnesses\":[";
  f = true;
  for (auto& w : m.wit) {
    o << (f ? "" : ",") << "{\"trace\":" << js(w.trace) << ",\"inputs\":[";
    bool g = true;
    for (auto& p : w.inputs) { o << (g ? "" : ",") << "[" << js(p.first) << "," << js(p.second) << "]"; g = false; }
    o << "],\"obs\":[";
    g = true;
    for (auto& p : w.obs) { o << (g ? "" : ",") << "[" << js(p.first) << "," << jn(p.second) << "]"; g = false; }
    o << "]}";
    f = false;
  }
  o << "],\"functions\":[";
  f = true;
  for (auto& p : m.fns)
    if (p.second->hit && p.second->inRepo) { o << (f ? "" : ",") << js(llvm::demangle(p.first->getName().str())); f = false; }
  o << "],\"stubs\":[";
  f = true;
  for (auto& p : m.stubsUsed) { o << (f ? "" : ",") << js(p); f = false; }
  o << "]}\n";
  return 0;
}
