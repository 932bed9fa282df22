#include "machine.h"
namespace sx {
static double clampMag(double a, double b) { return std::max(std::fabs(a), std::fabs(b)); }
const Builtin* Machine::lookupBuiltin(FnInfo* fi) {
  if (fi->looked) return fi->bi;
  fi->looked = true;
  std::string n = fi->F->getName().str();
  auto it = builtins.find(n);
  if (it != builtins.end()) { fi->bi = &it->second; }
  else
    for (auto& p : prefixes)
      if (!fi->F->isDeclaration() && !fi->F->hasLinkOnceLinkage() && !fi->F->hasWeakLinkage()) break;  // a model in rt/ comes first
      else if (n.compare(0, p.first.size(), p.first) == 0) { fi->bi = &p.second; break; }
  if (fi->bi && n.compare(0, 3, "sx_") != 0) stubsUsed.insert(llvm::demangle(n));
  return fi->bi;
}
#define BI(name) builtins[name] = [](Machine& m, const CallBase& cb, std::vector<Val>& a) -> Val
#define PX(name) prefixes.push_back({name, [](Machine& m, const CallBase& cb, std::vector<Val>& a) -> Val
// Contract of Eigen's Transform::rotation(): the rotation closest to the linear
// part (what the SVD computes). Exact for linear parts that are rotations.
static Val rotationContract(Machine& m, std::vector<Val>& a, int d, unsigned w) {
  unsigned sz = w / 8;
  uint64_t T = m.addrOf(a[0]), R = m.addrOf(a[1]);
  if (m.addrOf(a[2])) throw Unsupported{"scaling part of computeRotationScaling"};
  std::vector<Val> L(d * d);
  bool conc = true;
  for (int j = 0; j < d; ++j)
    for (int i = 0; i < d; ++i) {
      Val v = m.loadScalar(T + (j * (d + 1) + i) * sz, sz);
      if (v.undef()) throw PathError{"uninit", "rotation() of an uninitialised transform"};
      if (v.is(K_FP)) throw Unsupported{"rotation fp"};
      conc &= v.conc();
      L[j * d + i] = v;
    }
  auto st = [&](int i, int j, Val v) { m.storeScalar(R + (j * d + i) * sz, v, sz); };
  bool ortho = !conc;
  if (ortho) {
    auto e = [&](int i, int j) { return m.A.rexpr(L[j * d + i], w); };
    for (int p = 0; p < d && ortho; ++p)
      for (int q = p; q < d && ortho; ++q) {
        z3::expr x = m.S.ctx.real_val(p == q ? -1 : 0);
        for (int i = 0; i < d; ++i) x = x + e(i, p) * e(i, q);
        ortho = m.A.polyZero(x);
      }
    if (ortho) {
      z3::expr det = d == 2 ? e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0)
                            : e(0, 0) * (e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1)) - e(0, 1) * (e(1, 0) * e(2, 2) - e(1, 2) * e(2, 0)) + e(0, 2) * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0));
      ortho = m.A.polyZero(det - 1);
    }
  }
  if (ortho || (conc && d == 3)) {  // concrete 3D: only rotations are supported
    if (conc) {
      double g = 0;
      for (int p = 0; p < 3; ++p)
        for (int q = 0; q < 3; ++q) { double x = p == q ? -1 : 0; for (int i = 0; i < 3; ++i) x += m.A.cd(L[p * 3 + i], w) * m.A.cd(L[q * 3 + i], w); g += std::fabs(x); }
      if (g > 1e-9) throw Unsupported{"rotation() of a 3D non-rotation"};
    }
    for (int j = 0; j < d; ++j) for (int i = 0; i < d; ++i) st(i, j, L[j * d + i]);
    return Val();
  }
  if (d != 2) throw Unsupported{"rotation() of a 3D non-rotation"};
  Val y = m.A.fop(Arith::FSUB, L[1], L[2], w), x = m.A.fop(Arith::FADD, L[0], L[3], w);
  Val r = m.A.rsqrt(m.A.fop(Arith::FADD, m.A.fop(Arith::FMUL, x, x, w), m.A.fop(Arith::FMUL, y, y, w), w), w);
  Val z = m.A.fcmp(1, r, Val((uint64_t)0), w);
  if (z.conc() ? z.c : m.S.decide(m.A.bexpr(z))) throw Unsupported{"rotation() of a degenerate linear part"};
  Val c = m.A.fop(Arith::FDIV, x, r, w), s = m.A.fop(Arith::FDIV, y, r, w);
  st(0, 0, c); st(1, 1, c); st(1, 0, s); st(0, 1, m.A.fneg(s, w));
  return Val();
}
static void throwStd(Machine& m, const char* ti) {
  uint64_t o = m.alloc(64, O_EXT);
  m.excObj = o;
  auto* g = m.M->getNamedGlobal(ti);
  m.excTI = g ? m.gaddr[g] : 1;
  throw UnwindNow();
}
void Machine::registerBuiltins() {
  // ---- harness API
  BI("sx_is_symbolic") { return Val(1); };
  BI("sx_int") {
    std::string nm = m.cstr(a[0].c);
    int64_t lo = m.A.force(a[1], 64), hi = m.A.force(a[2], 64);
    z3::expr e = m.S.ctx.int_const((nm + "#" + std::to_string(m.S.inputs.size())).c_str());
    m.S.inputs.push_back({nm, "int", e, 0});
    m.S.assume(e >= m.A.ival(lo) && e <= m.A.ival(hi));
    if (lo == hi) return Val((uint64_t)lo);
    m.S.poly.rangeLater(z3::to_real(e), lo, hi);
    return m.A.mkInt(e, lo, hi, 64);
  };
  BI("sx_fix") {  // k * 2^q with k integer, lo <= k <= hi
    std::string nm = m.cstr(a[0].c);
    int64_t lo = m.A.force(a[1], 64), hi = m.A.force(a[2], 64);
    int q = (int)sextW(a[3].c, 32);
    z3::expr k = m.S.ctx.int_const((nm + "#" + std::to_string(m.S.inputs.size())).c_str());
    m.S.inputs.push_back({nm, "fix", k, q});
    m.S.assume(k >= m.A.ival(lo) && k <= m.A.ival(hi));
    double sc = std::ldexp(1.0, q);
    return m.A.mkReal(z3::to_real(k) * m.A.dval(sc), q, std::max(std::fabs((double)lo), std::fabs((double)hi)) * sc, 64);
  };
  BI("sx_real") {
    std::string nm = m.cstr(a[0].c);
    double lo = asD(a[1].c), hi = asD(a[2].c);
    z3::expr e = m.S.ctx.real_const((nm + "#" + std::to_string(m.S.inputs.size())).c_str());
    m.S.inputs.push_back({nm, "real", e, 0, lo, hi});
    m.S.poly.setRange(e, lo, hi);
    m.S.assume(e >= m.A.dval(lo) && e <= m.A.dval(hi));
    return m.A.mkReal(e, INT_MIN, clampMag(lo, hi), 64);
  };
  BI("sx_angle") {
    std::string nm = m.cstr(a[0].c);
    double lo = asD(a[1].c), hi = asD(a[2].c);
    z3::expr e = m.S.ctx.real_const((nm + "#" + std::to_string(m.S.inputs.size())).c_str());
    m.S.inputs.push_back({nm, "angle", e, 0, lo, hi});
    m.S.poly.setRange(e, lo, hi);
    m.S.assume(e >= m.A.dval(lo) && e <= m.A.dval(hi));
    return m.A.mkReal(e, INT_MIN, clampMag(lo, hi), 64);
  };
  BI("sx_f64") {
    std::string nm = m.cstr(a[0].c);
    z3::expr e(m.S.ctx, Z3_mk_const(m.S.ctx, m.S.ctx.str_symbol((nm + "#" + std::to_string(m.S.inputs.size())).c_str()), m.A.fsort(64)));
    m.S.inputs.push_back({nm, "f64", e, 0});
    Node* n = m.A.mk(K_FP);
    n->e.reset(new z3::expr(e));
    return Val(n);
  };
  BI("sx_assume") {
    if (a[0].undef()) throw PathError{"uninit", "assume on uninitialised value"};
    m.S.assume(m.A.bexpr(a[0])); return Val();
  };
  BI("sx_check") { m.check(a[0], m.cstr(a[1].c)); return Val(); };
  BI("sx_eq") { m.checkEq(a[0], a[1], asD(a[2].c), m.cstr(a[3].c)); return Val(); };
  BI("sx_reach") { std::string l = m.cstr(a[0].c); m.reach[l]++; m.trace += "R:" + l + ";"; return Val(); };
  BI("sx_obs") { m.obs.push_back({m.cstr(a[0].c), a[1]}); return Val(); };
  BI("sx_conc") { return Val((uint64_t)m.A.force(a[0], 64)); };
  BI("sx_end") { throw PathEnd{"ok"}; };
  BI("sx_alive") {  // is [p, p+n) live memory?
    uint64_t p = m.addrOf(a[0]), n = (uint64_t)m.A.force(a[1], 64);
    Obj* o = m.find(p);
    return Val((uint64_t)(o && o->alive && p >= o->base && p + n <= o->base + o->size));
  };
  BI("sx_ite") {  // real if-then-else without forking
    Val c = a[0], x = a[1], y = a[2];
    if (c.conc()) return (c.c & 1) ? x : y;
    int qx, qy; double mx, my;
    m.A.qm(x, 64, qx, mx); m.A.qm(y, 64, qy, my);
    return m.A.mkReal(z3::ite(m.A.bexpr(c), m.A.rexpr(x, 64), m.A.rexpr(y, 64)), (qx == INT_MIN || qy == INT_MIN) ? INT_MIN : std::min(qx, qy), std::max(mx, my), 64);
  };
  // ---- contract primitives (used by the models in harness/*_model.h)
  BI("sx_fresh") { z3::expr e = m.S.freshReal(m.cstr(a[0].c).c_str()); m.S.poly.atom(e); return m.A.mkReal(e, INT_MIN, INFINITY, 64); };
  BI("sx_axiom") { m.S.nonlinear = true; m.S.assertRaw(m.A.bexpr(a[0])); return Val(); };
  BI("sx_unit") {  // a^2 + b^2 == 1
    m.S.nonlinear = true;
    z3::expr x = m.A.rexpr(a[0], 64), y = m.A.rexpr(a[1], 64);
    m.S.assertRaw(x * x + y * y == 1);
    m.S.poly.setRange(x, -1, 1); m.S.poly.setRange(y, -1, 1);
    m.S.rules.push_back(m.S.poly.of(x * x + y * y - 1));
    return Val();
  };
  BI("sx_identical") {  // equal up to rounding of constants
    if (a[0].undef() || a[1].undef()) throw PathError{"uninit", "matrix entry uninitialised"};
    if (a[0].conc() && a[1].conc()) { double x = asD(a[0].c), y = asD(a[1].c); return Val((uint64_t)(x == y || std::fabs(x - y) <= 1e-12 * std::max(1.0, std::fabs(x)))); }
    try {
      Poly p = m.S.expand(m.S.poly.reduce(m.S.poly.of(m.A.rexpr(a[0], 64) - m.A.rexpr(a[1], 64)), m.S.rules));
      return Val((uint64_t)(p.empty() || m.S.poly.bound(p) < 1e-9));
    } catch (PolyTooBig&) { return Val((uint64_t)0); }
  };
  BI("sx_name") {  // a variable standing for the polynomial a[0]
    if (a[0].conc() || !a[0].is(K_REAL)) return a[0];
    Poly p;
    try { p = m.S.poly.reduce(m.S.poly.of(*a[0].n->e), m.S.rules); } catch (PolyTooBig&) { return a[0]; }
    if (p.empty() || (p.size() == 1 && (p.begin()->first.empty() || (p.begin()->second == 1 && p.begin()->first.size() == 1 && p.begin()->first[0].second == 1)))) return m.A.mkReal(m.S.poly.toExpr(p), INT_MIN, INFINITY, 64);
    for (auto& d : m.S.names) if (d.second == p) return m.A.mkReal(m.S.poly.atoms[d.first], INT_MIN, INFINITY, 64);
    z3::expr v = m.S.freshReal("nm");
    unsigned id = m.S.poly.atom(v);
    m.S.names[id] = p;
    m.S.defs.push_back(v == m.S.poly.toExpr(p));
    double b = m.S.poly.bound(p);
    if (b < 1e15) {
      m.S.poly.rng[id] = PolyCtx::evident(p) ? PolyCtx::Range{p.begin()->second.convert_to<double>() * (1 - 1e-12), b} : m.S.poly.range(p);
      z3::expr B = m.A.dval(b * 1.0000001 + 1e-9);
      if (PolyCtx::evident(p)) m.S.assertRaw(v >= m.S.poly.qexpr(p.begin()->second) && v <= B); else m.S.assertRaw(v <= B && v >= -B);
    } else if (PolyCtx::evident(p)) m.S.assertRaw(v >= m.S.poly.qexpr(p.begin()->second));
    return m.A.mkReal(v, INT_MIN, b < 1e15 ? b : INFINITY, 64);
  };
  BI("sx_lazy") { m.S.lazy = a[0].c & 1; return Val(); };
  BI("sx_positive") {  // evidently positive for all values of the inputs
    if (a[0].conc()) return Val((uint64_t)(asD(a[0].c) > 0));
    try {
      Poly p = m.S.expand(m.S.poly.reduce(m.S.poly.of(m.A.rexpr(a[0], 64)), m.S.rules));
      return Val((uint64_t)PolyCtx::evident(p));
    } catch (PolyTooBig&) { return Val((uint64_t)0); }
  };
  BI("sx_rule") {  // a[0] == 0, also used to rewrite
    if (a[0].conc()) { if (asD(a[0].c) != 0) m.S.assertRaw(m.S.ctx.bool_val(false)); return Val(); }
    Poly p = m.S.poly.of(m.A.rexpr(a[0], 64));
    m.S.rules.push_back(p);
    bool linear = true;  // products stay out of path queries, like definitions
    for (auto& t : p) { unsigned deg = 0; for (auto& v : t.first) deg += v.second; if (deg > 1) linear = false; }
    z3::expr eq = m.S.poly.toExpr(p) == 0;
    if (linear) m.S.assertRaw(eq); else m.S.defs.push_back(eq);
    return Val();
  };
  BI("sx_is_const") { return Val((uint64_t)a[0].conc()); };
  BI("sx_unsupported") { throw Unsupported{m.cstr(a[0].c)}; };
  // ---- allocation
  for (const char* n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) BI(n) { return Val(m.alloc((uint64_t)m.A.force(a[0], 64), O_NEW)); };
  for (const char* n : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"}) BI(n) { return Val(m.alloc((uint64_t)m.A.force(a[0], 64), O_NEWARR)); };
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t"}) BI(n) { m.freeObj(m.addrOf(a[0]), O_NEW, "delete"); return Val(); };
  for (const char* n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvmSt11align_val_t"}) BI(n) { m.freeObj(m.addrOf(a[0]), O_NEWARR, "delete[]"); return Val(); };
  BI("malloc") { return Val(m.alloc((uint64_t)m.A.force(a[0], 64), O_MALLOC)); };
  BI("calloc") { uint64_t n = (uint64_t)m.A.force(a[0], 64) * (uint64_t)m.A.force(a[1], 64); uint64_t p = m.alloc(n, O_MALLOC); m.setMem(p, 0, n); return Val(p); };
  BI("posix_memalign") { uint64_t p = m.alloc((uint64_t)m.A.force(a[2], 64), O_MALLOC); m.storeScalar(m.addrOf(a[0]), Val(p), 8); return Val((uint64_t)0); };
  BI("aligned_alloc") { return Val(m.alloc((uint64_t)m.A.force(a[1], 64), O_MALLOC)); };
  BI("free") { m.freeObj(m.addrOf(a[0]), O_MALLOC, "free"); return Val(); };
  BI("realloc") {
    uint64_t p = m.addrOf(a[0]), n = (uint64_t)m.A.force(a[1], 64), q = m.alloc(n, O_MALLOC);
    if (p) { Obj* o = m.access(p, 0, "realloc"); m.copyMem(q, p, std::min<uint64_t>(n, o->size)); m.freeObj(p, O_MALLOC, "realloc"); }
    return Val(q);
  };
  // ---- libc
  for (const char* n : {"memcpy", "memmove"}) BI(n) { m.copyMem(m.addrOf(a[0]), m.addrOf(a[1]), (uint64_t)m.A.force(a[2], 64)); return a[0]; };
  BI("memset") { m.setMem(m.addrOf(a[0]), (uint8_t)m.A.force(a[1], 32), (uint64_t)m.A.force(a[2], 64)); return a[0]; };
  BI("strlen") { return Val((uint64_t)m.cstr(m.addrOf(a[0])).size()); };
  for (const char* n : {"memcmp", "bcmp"}) BI(n) {
    uint64_t p = m.addrOf(a[0]), q = m.addrOf(a[1]), k = (uint64_t)m.A.force(a[2], 64);
    for (uint64_t i = 0; i < k; ++i) {
      Val x = m.loadScalar(p + i, 1), y = m.loadScalar(q + i, 1);
      Val c = m.A.icmp(Arith::EQ, x, y, 8);
      if (c.undef()) throw PathError{"uninit", "memcmp on uninitialised memory"};
      bool eq = c.conc() ? c.c : m.S.decide(m.A.bexpr(c));
      if (!eq) { int64_t vx = m.A.force(x, 8) & 255, vy = m.A.force(y, 8) & 255; return Val((uint64_t)(uint32_t)(vx < vy ? -1 : 1)); }
    }
    return Val((uint64_t)0);
  };
  BI("memchr") {
    uint64_t p = m.addrOf(a[0]), k = (uint64_t)m.A.force(a[2], 64);
    for (uint64_t i = 0; i < k; ++i) {
      Val c = m.A.icmp(Arith::EQ, m.loadScalar(p + i, 1), m.A.trunc(a[1], 32, 8), 8);
      if (c.undef()) throw PathError{"uninit", "memchr on uninitialised memory"};
      if (c.conc() ? c.c : m.S.decide(m.A.bexpr(c))) return Val(p + i);
    }
    return Val((uint64_t)0);
  };
  BI("strcmp") { return Val((uint64_t)(uint32_t)m.cstr(m.addrOf(a[0])).compare(m.cstr(m.addrOf(a[1])))); };
  BI("__errno_location") { uint64_t p = m.alloc(8, O_EXT); m.setMem(p, 0, 8); return Val(p); };
  for (const char* n : {"printf", "puts", "putchar", "fprintf", "fflush", "fwrite", "fputs", "fputc", "vfprintf"}) BI(n) { return Val((uint64_t)0); };
  // ---- math
  auto un = [&](const char* d, const char* f, Val (Arith::*g)(Val, unsigned)) {
    builtins[d] = [g](Machine& m, const CallBase&, std::vector<Val>& a) { return (m.A.*g)(a[0], 64); };
    builtins[f] = [g](Machine& m, const CallBase&, std::vector<Val>& a) { return (m.A.*g)(a[0], 32); };
  };
  un("sqrt", "sqrtf", &Arith::rsqrt); un("exp", "expf", &Arith::rexp); un("log", "logf", &Arith::rlog);
  un("floor", "floorf", &Arith::rfloor); un("ceil", "ceilf", &Arith::rceil); un("trunc", "truncf", &Arith::rtrunc);
  un("round", "roundf", &Arith::rround); un("fabs", "fabsf", &Arith::rabs);
  BI("sin") { return m.A.rsin(a[0], 64, false); }; BI("sinf") { return m.A.rsin(a[0], 32, false); };
  BI("cos") { return m.A.rsin(a[0], 64, true); }; BI("cosf") { return m.A.rsin(a[0], 32, true); };
  BI("tan") { return m.A.fop(Arith::FDIV, m.A.rsin(a[0], 64, false), m.A.rsin(a[0], 64, true), 64); };
  BI("sincos") { m.storeScalar(m.addrOf(a[1]), m.A.rsin(a[0], 64, false), 8); m.storeScalar(m.addrOf(a[2]), m.A.rsin(a[0], 64, true), 8); return Val(); };
  BI("sincosf") { m.storeScalar(m.addrOf(a[1]), m.A.rsin(a[0], 32, false), 4); m.storeScalar(m.addrOf(a[2]), m.A.rsin(a[0], 32, true), 4); return Val(); };
  BI("atan2") { return m.A.ratan2(a[0], a[1], 64); }; BI("atan2f") { return m.A.ratan2(a[0], a[1], 32); };
  for (unsigned w : {64u, 32u}) {
    std::string f = w == 32 ? "f" : "";
    builtins["atan" + f] = [w](Machine& m, const CallBase&, std::vector<Val>& a) { return m.A.ratan2(a[0], m.A.cfp(1, w), w); };
    for (bool ac : {false, true})
      builtins[(ac ? "acos" : "asin") + f] = [w, ac](Machine& m, const CallBase&, std::vector<Val>& a) -> Val {
        if (a[0].undef()) return a[0];
        if (a[0].conc()) return m.A.cfp(ac ? std::acos(m.A.cd(a[0], w)) : std::asin(m.A.cd(a[0], w)), w);
        Val one = m.A.cfp(1, w), r = m.A.rsqrt(m.A.fop(Arith::FSUB, one, m.A.fop(Arith::FMUL, a[0], a[0], w), w), w);
        if (r.conc() && std::isnan(m.A.cd(r, w))) return r;
        return ac ? m.A.ratan2(r, a[0], w) : m.A.ratan2(a[0], r, w);
      };
  }
  BI("hypot") { return m.A.rsqrt(m.A.fop(Arith::FADD, m.A.fop(Arith::FMUL, a[0], a[0], 64), m.A.fop(Arith::FMUL, a[1], a[1], 64), 64), 64); };
  for (const char* n : {"fmin", "fmax"}) {
    bool mx = n[2] == 'a';
    builtins[n] = [mx](Machine& m, const CallBase&, std::vector<Val>& a) {
      Val c = m.A.fcmp(mx ? 2 : 4, a[0], a[1], 64);
      return (c.conc() ? c.c : m.S.decide(m.A.bexpr(c))) ? a[0] : a[1];
    };
  }
  for (const char* n : {"sx_fmin", "sx_fmax"}) {  // as one term
    bool mx = n[4] == 'a';
    builtins[n] = [mx](Machine& m, const CallBase&, std::vector<Val>& a) {
      Val c = m.A.fcmp(mx ? 2 : 4, a[0], a[1], 64);
      if (c.conc()) return c.c ? a[0] : a[1];
      auto fin = [](const Val& v) { return v.conc() ? std::isfinite(asD(v.c)) : v.is(K_REAL); };
      if (!fin(a[0]) || !fin(a[1])) return m.S.decide(m.A.bexpr(c)) ? a[0] : a[1];
      auto mg = [](const Val& v) { return v.conc() ? std::fabs(asD(v.c)) : v.n->mag; };
      return m.A.mkReal(z3::ite(m.A.bexpr(c), m.A.rexpr(a[0], 64), m.A.rexpr(a[1], 64)), INT_MIN, std::max(mg(a[0]), mg(a[1])), 64);
    };
  }
  BI("pow") {
    if (a[0].conc() && a[1].conc()) return Val(fromD(std::pow(asD(a[0].c), asD(a[1].c))));
    if (a[1].conc()) {
      double e = asD(a[1].c);
      if (e == std::floor(e) && e >= 0 && e <= 8) { Val r = Val(fromD(1.0)); for (int i = 0; i < (int)e; ++i) r = m.A.fop(Arith::FMUL, r, a[0], 64); return r; }
      if (e == 0.5) return m.A.rsqrt(a[0], 64);
    }
    throw Unsupported{"pow"};
  };
  BI("powf") {
    if (a[1].conc()) {
      double e = asF(a[1].c);
      if (e == std::floor(e) && e >= 0 && e <= 8) { Val r = Val(fromF(1.0f)); for (int i = 0; i < (int)e; ++i) r = m.A.fop(Arith::FMUL, r, a[0], 32); return r; }
      if (e == 0.5) return m.A.rsqrt(a[0], 32);
    }
    throw Unsupported{"powf"};
  };
  BI("tanf") { return m.A.fop(Arith::FDIV, m.A.rsin(a[0], 32, false), m.A.rsin(a[0], 32, true), 32); };
  BI("hypotf") { return m.A.rsqrt(m.A.fop(Arith::FADD, m.A.fop(Arith::FMUL, a[0], a[0], 32), m.A.fop(Arith::FMUL, a[1], a[1], 32), 32), 32); };
  BI("fmod") { return m.A.rfmod(a[0], a[1], 64); };
  BI("fmodf") { return m.A.rfmod(a[0], a[1], 32); };
  for (const char* n : {"remainder"}) BI(n) {
    if (a[0].conc() && a[1].conc()) return Val(fromD(std::remainder(asD(a[0].c), asD(a[1].c))));
    if (a[1].conc() && a[0].is(K_REAL)) {
      z3::expr x = *a[0].n->e, y = m.A.dval(asD(a[1].c)), k = m.S.freshInt("rem");
      z3::expr r = x - z3::to_real(k) * y;
      m.S.assertRaw(r * 2 <= y && r * 2 >= -y);
      return m.A.mkReal(r, INT_MIN, std::fabs(asD(a[1].c)), 64);
    }
    throw Unsupported{"remainder"};
  };
  struct { const char* n; int d; unsigned w; } rots[] = {{"_ZNK5Eigen9TransformIdLi2ELi2ELi0EE22computeRotationScaling", 2, 64}, {"_ZNK5Eigen9TransformIfLi2ELi2ELi0EE22computeRotationScaling", 2, 32},
      {"_ZNK5Eigen9TransformIdLi3ELi2ELi0EE22computeRotationScaling", 3, 64}, {"_ZNK5Eigen9TransformIfLi3ELi2ELi0EE22computeRotationScaling", 3, 32}};
  for (auto& t : rots) { int d = t.d; unsigned w = t.w; prefixes.push_back({t.n, [d, w](Machine& m, const CallBase&, std::vector<Val>& a) -> Val { return rotationContract(m, a, d, w); }}); }
  // ---- C++ runtime
  BI("__cxa_allocate_exception") { return Val(m.alloc(std::max<uint64_t>(a[0].c, 16), O_EXT)); };
  BI("__cxa_free_exception") { return Val(); };
  BI("__cxa_throw") { m.excObj = a[0].c; m.excTI = a[1].c; throw UnwindNow(); };
  BI("__cxa_rethrow") { if (m.caught.empty()) throw PathError{"terminate", "rethrow without exception"}; m.excObj = m.caught.back().first; m.excTI = m.caught.back().second; throw UnwindNow(); };
  BI("__cxa_begin_catch") { m.caught.push_back({m.excObj, m.excTI}); return a[0]; };
  BI("__cxa_end_catch") { if (!m.caught.empty()) m.caught.pop_back(); return Val(); };
  BI("__clang_call_terminate") { throw PathError{"terminate", "exception escaped a noexcept function"}; };
  BI("_ZSt9terminatev") { throw PathError{"terminate", "std::terminate"}; };
  BI("abort") { throw PathError{"abort", "abort"}; };
  BI("exit") { throw PathError{"exit", "exit called"}; };
  BI("__assert_fail") { throw PathError{"assert", "assertion failed: " + m.cstr(a[0].c)}; };
  BI("__cxa_pure_virtual") { throw PathError{"pure-virtual", "pure virtual call"}; };
  BI("__cxa_guard_acquire") { Val v = m.loadScalar(m.addrOf(a[0]), 1); return Val((uint64_t)(v.c == 0)); };
  BI("__cxa_guard_release") { m.storeScalar(m.addrOf(a[0]), Val(1), 1); return Val(); };
  BI("__cxa_guard_abort") { return Val(); };
  BI("__cxa_atexit") { return Val((uint64_t)0); };
  BI("__cxa_thread_atexit") { return Val((uint64_t)0); };
  BI("__dynamic_cast") {
    uint64_t p = m.addrOf(a[0]);
    if (!p) return Val((uint64_t)0);
    uint64_t vt = m.loadScalar(p, 8).c;
    int64_t off = (int64_t)m.loadScalar(vt - 16, 8).c;
    uint64_t ti = m.loadScalar(vt - 8, 8).c, want = a[2].c;
    uint64_t full = p + off;
    // single-inheritance / vmi search through typeinfo records
    std::function<uint64_t(uint64_t, uint64_t)> go = [&](uint64_t t, uint64_t obj) -> uint64_t {
      if (t == want) return obj;
      const GlobalVariable* g = (t >> SLOT) < m.gbySlot.size() ? m.gbySlot[t >> SLOT] : nullptr;
      if (!g || !g->hasInitializer()) return 0;
      auto* c = g->getInitializer();
      if (c->getNumOperands() == 3) return go(m.constVal(cast<Constant>(c->getOperand(2))).c, obj);
      if (c->getNumOperands() > 4) {
        uint64_t n = m.constVal(cast<Constant>(c->getOperand(3))).c;
        for (uint64_t i = 0; i < n; ++i) {
          uint64_t bt = m.constVal(cast<Constant>(c->getOperand(4 + 2 * i))).c;
          int64_t fl = (int64_t)m.constVal(cast<Constant>(c->getOperand(5 + 2 * i))).c;
          int64_t o = fl >> 8;
          if (fl & 1) o = (int64_t)m.loadScalar(m.loadScalar(obj, 8).c + o, 8).c;
          uint64_t r = go(bt, obj + o);
          if (r) return r;
        }
      }
      return 0;
    };
    return Val(go(ti, full));
  };
  struct { const char* fn; const char* ti; } thr[] = {
      {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
      {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
      {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt9bad_alloc"},
      {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
      {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
      {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt21__throw_bad_exceptionv", "_ZTISt13bad_exception"}};
  for (auto& t : thr) {
    const char* ti = t.ti;
    builtins[t.fn] = [ti](Machine& m, const CallBase&, std::vector<Val>&) -> Val { throwStd(m, ti); return Val(); };
  }
  // std exception classes: constructors/destructors have no observable effect here
  for (const char* c : {"9exception", "11logic_error", "13runtime_error", "12out_of_range", "16invalid_argument", "12length_error", "12domain_error", "11range_error", "14overflow_error", "9bad_alloc", "8bad_cast"})
    for (const char* s : {"C1", "C2", "D0", "D1", "D2"}) PX((std::string("_ZNSt") + c + s).c_str()) { return Val(); }});
  // ---- iostream: formatting is not a subject of any property
  for (const char* p : {"_ZNSo", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZNKSt9basic_ios", "_ZNSt8ios_base", "_ZSt16__ostream_insert", "_ZNSt9basic_ios", "_ZSt9__ostream", "_ZNSolsE", "_ZSt4setw", "_ZSt12setprecision"})
    PX(p) { return a.empty() ? Val((uint64_t)0) : a[0]; }});
  builtins["_ZNSt8ios_base4InitC1Ev"] = builtins["_ZNSt8ios_base4InitD1Ev"] = [](Machine&, const CallBase&, std::vector<Val>&) { return Val((uint64_t)0); };
}
}  // namespace sx
