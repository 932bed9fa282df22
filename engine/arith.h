// Symbolic integer / real / fp arithmetic on Val.
#pragma once
#include "sym.h"
namespace sx {
struct Arith {
  Sym& S;
  z3::context& C;
  std::deque<Node> arena;
  bool fpMode = false;
  std::map<uint64_t, z3::expr> dcache;
  std::map<std::string, std::shared_ptr<z3::expr>> icache;
  Arith(Sym& s) : S(s), C(s.ctx) {}
  void reset() { arena.clear(); atoms.clear(); }
  Node* mk(Kind k) { arena.emplace_back(k); return &arena.back(); }
  Val undef() { return Val(mk(K_UNDEF)); }
  // ---------- integers
  static i128 smin(unsigned w) { return w >= 128 ? 0 : -((i128)1 << (w - 1)); }
  static i128 smax(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
  static std::string str(i128 v) {
    if (v == 0) return "0";
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : v;
    std::string r;
    while (u) { r.insert(r.begin(), '0' + (int)(u % 10)); u /= 10; }
    return neg ? "-" + r : r;
  }
  z3::expr ival(i128 v) { return C.int_val(str(v).c_str()); }
  Val conc(int64_t v, unsigned w) { return Val((uint64_t)v & maskW(w)); }
  Val mkInt(const z3::expr& e0, i128 lo, i128 hi, unsigned w) {
    z3::expr e = e0.simplify();
    int64_t v;
    if (e.is_numeral_i64(v)) return conc(v, w);
    if (lo == hi) return conc((int64_t)lo, w);
    Node* n = mk(K_INT);
    n->e.reset(new z3::expr(e));
    n->lo = lo; n->hi = hi; n->width = w;
    return Val(n);
  }
  Val mkBool(const z3::expr& e0) {
    z3::expr e = e0.simplify();
    if (e.is_true()) return Val(1);
    if (e.is_false()) return Val((uint64_t)0);
    Node* n = mk(K_BOOL);
    n->e.reset(new z3::expr(e));
    return Val(n);
  }
  z3::expr bexpr(const Val& v) {
    if (v.conc()) return C.bool_val(v.c & 1);
    if (v.n->k == K_BOOL) return *v.n->e;
    if (v.n->k == K_INT) return *v.n->e != 0;
    throw Unsupported{"bool operand kind"};
  }
  z3::expr iexpr(const Val& v, unsigned w) {
    if (v.conc()) return ival(sextW(v.c, w));
    if (v.n->k == K_INT) return *v.n->e;
    if (v.n->k == K_BOOL) return w == 1 ? z3::ite(*v.n->e, ival(-1), ival(0)) : z3::ite(*v.n->e, ival(1), ival(0));
    throw Unsupported{"int operand kind " + std::to_string(v.n->k)};
  }
  void range(const Val& v, unsigned w, i128& lo, i128& hi) {
    if (v.conc()) { lo = hi = sextW(v.c, w); return; }
    if (v.n->k == K_INT) { lo = v.n->lo; hi = v.n->hi; return; }
    lo = w == 1 ? -1 : 0; hi = w == 1 ? 0 : 1;
  }
  // wrap a mathematical result into w-bit signed canonical form
  Val wrap(const z3::expr& e, i128 lo, i128 hi, unsigned w) {
    if (lo >= smin(w) && hi <= smax(w)) return mkInt(e, lo, hi, w);
    // intervals are conservative: ask the solver whether wrapping is possible
    z3::expr out = (e < ival(smin(w))) || (e > ival(smax(w)));
    z3::expr o = out.simplify();
    if (o.is_false()) return mkInt(e, std::max(lo, smin(w)), std::min(hi, smax(w)), w);
    if (!S.decide(o)) return mkInt(e, std::max(lo, smin(w)), std::min(hi, smax(w)), w);
    i128 m = (i128)1 << w;
    return mkInt(z3::mod(e - ival(smin(w)), ival(m)) + ival(smin(w)), smin(w), smax(w), w);
  }
  z3::expr uexpr(const Val& v, unsigned w) {  // unsigned value
    i128 lo, hi; range(v, w, lo, hi);
    z3::expr e = iexpr(v, w);
    if (lo >= 0) return e;
    if (v.conc()) return ival((i128)(v.c & maskW(w)));
    return z3::ite(e < 0, e + ival((i128)1 << w), e);
  }
  int64_t force(Val v, unsigned w) {
    if (v.conc()) return sextW(v.c, w);
    if (v.undef()) throw PathError{"uninit", "use of uninitialised value"};
    if (v.n->k == K_BOOL) return S.decide(*v.n->e) ? (w == 1 ? -1 : 1) : 0;
    if (v.n->k == K_INT) return S.concretize(*v.n->e);
    throw Unsupported{"force kind " + std::to_string(v.n->k)};
  }
  enum IOp { ADD, SUB, MUL, SDIV, SREM, UDIV, UREM, SHL, LSHR, ASHR, AND, OR, XOR };
  Val iop(IOp op, Val a, Val b, unsigned w) {
    if (a.conc() && b.conc()) return cop(op, a.c, b.c, w);
    if (a.undef() || b.undef()) {
      if (op == AND && ((a.conc() && (a.c & maskW(w)) == 0) || (b.conc() && (b.c & maskW(w)) == 0))) return Val((uint64_t)0);
      return undef();
    }
    if (a.is(K_CONCAT) || b.is(K_CONCAT)) return concatOp(op, a, b, w);
    if (w == 1) {
      z3::expr x = bexpr(a), y = bexpr(b);
      switch (op) {
        case AND: case MUL: return mkBool(x && y);
        case OR: return mkBool(x || y);
        case XOR: case ADD: case SUB: return mkBool(x != y);
        default: throw Unsupported{"i1 op"};
      }
    }
    i128 al, ah, bl, bh;
    range(a, w, al, ah); range(b, w, bl, bh);
    z3::expr x = iexpr(a, w), y = iexpr(b, w);
    switch (op) {
      case ADD: return wrap(x + y, al + bl, ah + bh, w);
      case SUB: return wrap(x - y, al - bh, ah - bl, w);
      case MUL: {
        if (w > 32 && (ah - al > ((i128)1 << 62) || bh - bl > ((i128)1 << 62))) { al = bl = smin(w) / 2; ah = bh = smax(w); }
        i128 c[4] = {al * bl, al * bh, ah * bl, ah * bh};
        i128 lo = c[0], hi = c[0];
        for (int i = 1; i < 4; ++i) { lo = std::min(lo, c[i]); hi = std::max(hi, c[i]); }
        if (!a.conc() && !b.conc()) S.nonlinear = true;
        return wrap(x * y, lo, hi, w);
      }
      case UDIV: case UREM: {
        z3::expr ux = uexpr(a, w), uy = uexpr(b, w);
        if (!b.conc()) {
          if (S.decide(uy == 0)) throw PathError{"div-by-zero", "integer division by zero"};
        } else if (b.c == 0) throw PathError{"div-by-zero", "integer division by zero"};
        if (op == UDIV) {
          if (al >= 0) return wrap(ux / uy, 0, ah, w);
          return wrap(ux / uy, 0, (i128)1 << w, w);
        }
        if (b.conc() && bl > 0) return wrap(z3::mod(ux, uy), 0, bl - 1, w);
        return wrap(z3::mod(ux, uy), 0, (bl >= 0 ? bh : (i128)1 << w), w);
      }
      case SDIV: case SREM: {
        int64_t d = force(b, w);
        if (d == 0) throw PathError{"div-by-zero", "integer division by zero"};
        bool neg = al >= 0 ? false : (ah < 0 ? true : S.decide(x < 0));
        i128 m = std::max(ah < 0 ? -ah : ah, al < 0 ? -al : al);
        i128 ad = d < 0 ? -(i128)d : d;
        z3::expr ax = neg ? -x : x;
        if (op == SDIV) {
          z3::expr q = ax / ival(ad);
          bool rn = neg != (d < 0);
          return wrap(rn ? -q : q, -m / ad, m / ad, w);
        }
        z3::expr r = z3::mod(ax, ival(ad));
        return wrap(neg ? -r : r, -(ad - 1), ad - 1, w);
      }
      case SHL: {
        int64_t k = force(b, w);
        if (k < 0 || k >= (int)w) throw PathError{"shift", "shift out of range"};
        i128 m = (i128)1 << k;
        return wrap(x * ival(m), (al < -((i128)1 << 62) || k > 62) ? smin(w) * 2 : al * m, (ah > ((i128)1 << 62) || k > 62) ? smax(w) * 4 : ah * m, w);
      }
      case LSHR: {
        int64_t k = force(b, w);
        if (k < 0 || k >= (int)w) throw PathError{"shift", "shift out of range"};
        z3::expr ux = uexpr(a, w);
        i128 hi = al >= 0 ? ah : ((i128)1 << w) - 1;
        return wrap(ux / ival((i128)1 << k), 0, hi >> k, w);
      }
      case ASHR: {
        int64_t k = force(b, w);
        if (k < 0 || k >= (int)w) throw PathError{"shift", "shift out of range"};
        return wrap(x / ival((i128)1 << k), al >> k, ah >> k, w);
      }
      case AND: case OR: case XOR: {
        if (a.conc()) { std::swap(a, b); std::swap(x, y); std::swap(al, bl); std::swap(ah, bh); }
        if (b.conc()) {
          uint64_t m = b.c & maskW(w);
          if (op == AND) {
            if (m == maskW(w)) return a;
            if (m == 0) return Val((uint64_t)0);
            if ((m & (m + 1)) == 0) {  // low mask
              if (al >= 0 && ah <= (i128)m) return a;
              return wrap(z3::mod(x, ival((i128)m + 1)), 0, (i128)m, w);
            }
            uint64_t lowbit = m & -m;
            if ((m | (lowbit - 1)) == maskW(w))  // high mask
              return wrap(x - z3::mod(x, ival((i128)lowbit)), al - (i128)lowbit, ah, w);
            if (m == lowbit) {  // single bit
              return wrap(z3::mod(x / ival((i128)m), ival(2)) * ival((i128)m), 0, (i128)m, w);
            }
          }
          if (op == XOR && m == maskW(w)) return wrap(-x - 1, -ah - 1, -al - 1, w);
          if (op == OR && m == 0) return a;
          if (op == XOR && m == 0) return a;
          if (op == OR && al >= 0 && b.c && (b.c & (b.c - 1)) == 0 && (i128)b.c > ah) return wrap(x + y, al + (i128)b.c, ah + (i128)b.c, w);
          if (op == XOR && al >= 0 && ah <= 1 && m == 1) return wrap(1 - x, 0, 1, w);
        }
        if (al >= 0 && ah <= 1 && bl >= 0 && bh <= 1) {
          z3::expr p = x != 0, q = y != 0;
          z3::expr r = op == AND ? (p && q) : op == OR ? (p || q) : (p != q);
          return mkInt(z3::ite(r, ival(1), ival(0)), 0, 1, w);
        }
        int64_t va = force(a, w);
        return iop(op, Val((uint64_t)va & maskW(w)), b.conc() ? b : Val((uint64_t)force(b, w) & maskW(w)), w);
      }
    }
    throw Unsupported{"iop"};
  }
  Val concatOp(IOp op, Val a, Val b, unsigned w) {
    if (a.is(K_CONCAT) && b.conc()) {
      auto& k = a.n->kids;
      if (op == LSHR) {
        unsigned sh = b.c / 8, off = 0;
        if (b.c % 8 == 0)
          for (size_t i = 0; i < k.size(); ++i) {
            if (off == sh) {
              Node* n = mk(K_CONCAT);
              unsigned tot = 0;
              for (size_t j = i; j < k.size(); ++j) { n->kids.push_back(k[j]); n->szs.push_back(a.n->szs[j]); tot += a.n->szs[j]; }
              n->kids.push_back(Val((uint64_t)0)); n->szs.push_back(sh);
              return Val(n);
            }
            off += a.n->szs[i];
          }
      }
      if (op == AND && (b.c & (b.c + 1)) == 0) {
        unsigned bits = 0;
        while ((b.c >> bits) & 1) ++bits;
        return concatTrunc(a, bits);
      }
    }
    throw Unsupported{"op on packed value"};
  }
  Val concatTrunc(Val a, unsigned bits) {
    unsigned off = 0;
    auto& k = a.n->kids;
    for (size_t i = 0; i < k.size(); ++i) {
      if (off == 0 && a.n->szs[i] * 8 == bits) return k[i];
      off += a.n->szs[i];
    }
    throw Unsupported{"trunc of packed value"};
  }
  Val cop(IOp op, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskW(w);
    a &= m; b &= m;
    int64_t sa = sextW(a, w), sb = sextW(b, w);
    switch (op) {
      case ADD: return Val((a + b) & m);
      case SUB: return Val((a - b) & m);
      case MUL: return Val((a * b) & m);
      case SDIV: if (!b) throw PathError{"div-by-zero", "integer division by zero"};
        if (sb == -1) return Val((uint64_t)(0 - sa) & m);
        return Val((uint64_t)(sa / sb) & m);
      case SREM: if (!b) throw PathError{"div-by-zero", "integer division by zero"};
        if (sb == -1) return Val((uint64_t)0);
        return Val((uint64_t)(sa % sb) & m);
      case UDIV: if (!b) throw PathError{"div-by-zero", "integer division by zero"};
        return Val(a / b);
      case UREM: if (!b) throw PathError{"div-by-zero", "integer division by zero"};
        return Val(a % b);
      case SHL: if (b >= w) return undef(); return Val((a << b) & m);
      case LSHR: if (b >= w) return undef(); return Val(a >> b);
      case ASHR: if (b >= w) return undef(); return Val((uint64_t)(sa >> b) & m);
      case AND: return Val(a & b);
      case OR: return Val(a | b);
      case XOR: return Val(a ^ b);
    }
    return Val();
  }
  enum Pred { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
  Val icmp(Pred p, Val a, Val b, unsigned w) {
    if (a.undef() || b.undef()) return undef();
    if (a.conc() && b.conc()) {
      uint64_t m = maskW(w), x = a.c & m, y = b.c & m;
      int64_t sx_ = sextW(x, w), sy = sextW(y, w);
      switch (p) {
        case EQ: return Val(x == y); case NE: return Val(x != y);
        case UGT: return Val(x > y); case UGE: return Val(x >= y);
        case ULT: return Val(x < y); case ULE: return Val(x <= y);
        case SGT: return Val(sx_ > sy); case SGE: return Val(sx_ >= sy);
        case SLT: return Val(sx_ < sy); case SLE: return Val(sx_ <= sy);
      }
    }
    if (a.is(K_REAL) || b.is(K_REAL)) {
      // sign-bit test on the bits of a double
      if (a.is(K_REAL) && b.conc()) {
        int64_t k = sextW(b.c, w);
        if (p == SLT && k == 0) return mkBool(*a.n->e < 0);
        if (p == SGT && k == -1) return mkBool(*a.n->e >= 0);
        if (p == SGE && k == 0) return mkBool(*a.n->e >= 0);
      }
      throw Unsupported{"icmp on real bits"};
    }
    if (w == 1) {
      z3::expr x = bexpr(a), y = bexpr(b);
      if (p == EQ) return mkBool(x == y);
      if (p == NE) return mkBool(x != y);
    }
    bool uns = p == UGT || p == UGE || p == ULT || p == ULE;
    z3::expr x = uns ? uexpr(a, w) : iexpr(a, w), y = uns ? uexpr(b, w) : iexpr(b, w);
    i128 al, ah, bl, bh;
    range(a, w, al, ah); range(b, w, bl, bh);
    if (!uns || (al >= 0 && bl >= 0)) {
      if (ah < bl) { switch (p) { case EQ: case UGT: case UGE: case SGT: case SGE: return Val((uint64_t)0); default: return Val(1); } }
      if (al > bh) { switch (p) { case EQ: case ULT: case ULE: case SLT: case SLE: return Val((uint64_t)0); default: return Val(1); } }
    }
    switch (p) {
      case EQ: return mkBool(x == y); case NE: return mkBool(x != y);
      case UGT: case SGT: return mkBool(x > y);
      case UGE: case SGE: return mkBool(x >= y);
      case ULT: case SLT: return mkBool(x < y);
      case ULE: case SLE: return mkBool(x <= y);
    }
    throw Unsupported{"icmp"};
  }
  Val zext(Val a, unsigned from, unsigned to) {
    if (a.conc()) return Val(a.c & maskW(from));
    if (a.undef()) return a;
    if (from == 1) return mkInt(z3::ite(bexpr(a), ival(1), ival(0)), 0, 1, to);
    i128 lo, hi; range(a, from, lo, hi);
    if (lo >= 0) return mkInt(iexpr(a, from), lo, hi, to);
    return mkInt(uexpr(a, from), 0, ((i128)1 << from) - 1, to);
  }
  Val sext(Val a, unsigned from, unsigned to) {
    if (a.conc()) return Val((uint64_t)sextW(a.c, from) & maskW(to));
    if (a.undef()) return a;
    if (from == 1) return mkInt(z3::ite(bexpr(a), ival(-1), ival(0)), -1, 0, to);
    i128 lo, hi; range(a, from, lo, hi);
    return mkInt(iexpr(a, from), lo, hi, to);
  }
  Val trunc(Val a, unsigned from, unsigned to) {
    if (a.conc()) return Val(a.c & maskW(to));
    if (a.undef()) return a;
    if (a.is(K_CONCAT)) return concatTrunc(a, to);
    if (to == 1) {
      i128 lo, hi; range(a, from, lo, hi);
      if (lo >= 0 && hi <= 1) return mkBool(iexpr(a, from) == 1);
      return mkBool(z3::mod(iexpr(a, from), ival(2)) == 1);
    }
    i128 lo, hi; range(a, from, lo, hi);
    if (lo >= smin(to) && hi <= smax(to)) return mkInt(iexpr(a, from), lo, hi, to);
    i128 m = (i128)1 << to;
    if (lo >= 0 && hi < m) {  // fits unsigned
      z3::expr e = iexpr(a, from);
      return mkInt(z3::ite(e > ival(smax(to)), e - ival(m), e), smin(to), smax(to), to);
    }
    return mkInt(z3::mod(iexpr(a, from) - ival(smin(to)), ival(m)) + ival(smin(to)), smin(to), smax(to), to);
  }
  // ---------- reals
  z3::expr dval(double d) {
    uint64_t b = fromD(d);
    auto it = dcache.find(b);
    if (it != dcache.end()) return it->second;
    int ex;
    double m = std::frexp(d, &ex);
    int64_t mi = (int64_t)std::ldexp(m, 53);
    ex -= 53;
    while (mi && !(mi & 1)) { mi >>= 1; ++ex; }
    if (!mi) ex = 0;
    boost::multiprecision::cpp_int n = mi, de = 1;
    if (ex > 0) n <<= ex; else de <<= -ex;
    z3::expr e = C.real_val((n.str() + "/" + de.str()).c_str());
    dcache.emplace(b, e);
    return e;
  }
  static void conq(double d, int& q, double& mag) {
    mag = std::fabs(d);
    if (d == 0) { q = 1000; return; }
    int ex; double m = std::frexp(d, &ex);
    int64_t mi = (int64_t)std::ldexp(m, 53); ex -= 53;
    while (!(mi & 1)) { mi >>= 1; ++ex; }
    q = ex;
  }
  double cd(const Val& v, unsigned w) { return w == 32 ? (double)asF(v.c) : asD(v.c); }
  Val cfp(double d, unsigned w) { return Val(w == 32 ? fromF((float)d) : fromD(d)); }
  z3::expr rexpr(const Val& v, unsigned w) {
    if (v.conc()) return dval(cd(v, w));
    if (v.n->k == K_REAL) return *v.n->e;
    throw Unsupported{"real operand kind " + std::to_string(v.n->k)};
  }
  void qm(const Val& v, unsigned w, int& q, double& mag) {
    if (v.conc()) { conq(cd(v, w), q, mag); return; }
    q = v.n->q; mag = v.n->mag;
  }
  // make a real; w: width of the float type, for exactness accounting
  Val mkReal(const z3::expr& e0, int q, double mag, unsigned w) {
    z3::expr e = e0.simplify();
    if (e.is_numeral()) {
      Q v = PolyCtx::num(e);
      double d = v.convert_to<double>();
      if (std::isfinite(d) && Q(d) == v && (w == 64 || (double)(float)d == d)) return cfp(d, w);
    }
    Node* n = mk(K_REAL);
    if (q != INT_MIN && mag < INFINITY) {
      int ex; std::frexp(mag, &ex);
      if (ex - q > (w == 32 ? 24 : 53)) { q = INT_MIN; }
    } else q = INT_MIN;
    if (q == INT_MIN) S.st.inexact++; else S.st.exact++;
    n->e.reset(new z3::expr(e));
    n->q = q; n->mag = mag;
    return Val(n);
  }
  enum FOp { FADD, FSUB, FMUL, FDIV };
  Val fop(FOp op, Val a, Val b, unsigned w) {
    if (a.undef() || b.undef()) return undef();
    if (a.conc() && b.conc()) {
      if (w == 32) {
        float x = asF(a.c), y = asF(b.c);
        switch (op) { case FADD: return fromF(x + y); case FSUB: return fromF(x - y); case FMUL: return fromF(x * y); case FDIV: return fromF(x / y); }
      }
      double x = asD(a.c), y = asD(b.c);
      switch (op) { case FADD: return fromD(x + y); case FSUB: return fromD(x - y); case FMUL: return fromD(x * y); case FDIV: return fromD(x / y); }
    }
    if (a.is(K_FP) || b.is(K_FP)) {
      z3::expr x = fexpr(a, w), y = fexpr(b, w);
      switch (op) {
        case FADD: return mkFp(z3::expr(C, Z3_mk_fpa_add(C, rne(), x, y)), w);
        case FSUB: return mkFp(z3::expr(C, Z3_mk_fpa_sub(C, rne(), x, y)), w);
        case FMUL: return mkFp(z3::expr(C, Z3_mk_fpa_mul(C, rne(), x, y)), w);
        case FDIV: return mkFp(z3::expr(C, Z3_mk_fpa_div(C, rne(), x, y)), w);
      }
    }
    // symbolic real with concrete non-finite
    for (int i = 0; i < 2; ++i) {
      const Val& v = i ? b : a;
      if (v.conc() && !std::isfinite(cd(v, w))) {
        double d = cd(v, w);
        if (std::isnan(d)) return v;
        if (op == FADD) return v;
        if (op == FSUB) return i ? cfp(-d, w) : v;
        const z3::expr& o = *(i ? a : b).n->e;
        if (op == FDIV && i) return cfp(0.0, w);
        if (S.decide(o == 0)) return op == FMUL ? cfp(NAN, w) : cfp(d, w);
        bool neg = S.decide(o < 0);
        return cfp(neg ? -d : d, w);
      }
    }
    int qa, qb; double ma, mb;
    qm(a, w, qa, ma); qm(b, w, qb, mb);
    z3::expr x = rexpr(a, w), y = rexpr(b, w);
    bool kq = qa != INT_MIN && qb != INT_MIN;
    switch (op) {
      case FADD:
        if (a.conc() && cd(a, w) == 0) return b;
        if (b.conc() && cd(b, w) == 0) return a;
        return mkReal(x + y, kq ? std::min(qa, qb) : INT_MIN, ma + mb, w);
      case FSUB:
        if (b.conc() && cd(b, w) == 0) return a;
        return mkReal(x - y, kq ? std::min(qa, qb) : INT_MIN, ma + mb, w);
      case FMUL: {
        if ((a.conc() && cd(a, w) == 0) || (b.conc() && cd(b, w) == 0)) return cfp(0.0, w);
        if (a.conc() && cd(a, w) == 1) return b;
        if (b.conc() && cd(b, w) == 1) return a;
        if (!a.conc() && !b.conc()) S.nonlinear = true;
        double m = ma * mb;
        if (std::isnan(m)) m = INFINITY;
        return mkReal(x * y, kq ? qa + qb : INT_MIN, m, w);
      }
      case FDIV: {
        if (b.conc()) {
          double d = cd(b, w);
          if (d == 0) return divZero(a, w);
          int ex; double fr = std::frexp(d, &ex);
          bool p2 = std::fabs(fr) == 0.5;
          return mkReal(x / y, p2 && qa != INT_MIN ? qa - (ex - 1) : INT_MIN, ma / std::fabs(d), w);
        }
        PolyCtx::Range ry = rangeOf(y);
        if (!(ry.lo > 0 || ry.hi < 0) && S.decide(y == 0)) return divZero(a, w);
        S.nonlinear = true;
        if (a.conc() && cd(a, w) == 0) return cfp(0.0, w);
        z3::expr inv = inverse(y);
        return mkReal(x * inv, INT_MIN, INFINITY, w);
      }
    }
    throw Unsupported{"fop"};
  }
  Val divZero(Val a, unsigned w) {
    if (a.conc()) { double d = cd(a, w); return cfp(d == 0 || std::isnan(d) ? NAN : d > 0 ? INFINITY : -INFINITY, w); }
    z3::expr x = rexpr(a, w);
    if (S.decide(x == 0)) return cfp(NAN, w);
    return cfp(S.decide(x > 0) ? INFINITY : -INFINITY, w);
  }
  // Intervals of the inputs decide many comparisons of expressions with
  // exponentials, which are hard for the solver.
  PolyCtx::Range rangeOf(const z3::expr& e) {
    if (exps.empty() && !S.lazy) return PolyCtx::Range{-INFINITY, INFINITY};
    try { return S.poly.range(S.poly.reduce(S.poly.of(e), S.rules)); } catch (PolyTooBig&) { return PolyCtx::Range{-INFINITY, INFINITY}; }
  }
  std::vector<std::pair<Poly, z3::expr>> invs;  // cleared with atoms (per path)
  // 1/y as a fresh variable inv with y*inv == 1 (y != 0 already on the path)
  z3::expr inverse(const z3::expr& y) {
    Poly p;
    bool ok = true;
    try { p = S.poly.reduce(S.poly.of(y), S.rules); } catch (PolyTooBig&) { ok = false; }
    if (ok && !p.empty()) {
      Q lc = std::prev(p.end())->second;
      Poly m;
      for (auto& t : p) m[t.first] = t.second / lc;
      for (auto& iv : invs)
        if (iv.first == m) return iv.second * S.poly.qexpr(1 / lc);
      z3::expr v = S.freshReal("inv");
      PolyCtx::Range rm = exps.empty() && !S.lazy ? PolyCtx::Range{-INFINITY, INFINITY} : S.poly.range(m);
      if ((rm.lo > 0 && rm.hi < INFINITY) || (rm.hi < 0 && rm.lo > -INFINITY)) {
        double l = 1 / rm.hi, h = 1 / rm.lo;
        l -= std::fabs(l) * 1e-12; h += std::fabs(h) * 1e-12;
        S.poly.setRange(v, l, h);
        S.assertRaw(v >= dval(l) && v <= dval(h));
        S.defs.push_back(S.poly.toExpr(m) * v == 1);
      } else S.assertRaw(S.poly.toExpr(m) * v == 1);
      Poly r = S.poly.mul(m, S.poly.of(v));
      PolyCtx::add(r, Mono(), -1);
      S.rules.push_back(r);
      invs.push_back({m, v});
      return v * S.poly.qexpr(1 / lc);
    }
    z3::expr v = S.freshReal("inv");
    S.assertRaw(y * v == 1);
    return v;
  }
  Val fneg(Val a, unsigned w) {
    if (a.undef()) return a;
    if (a.conc()) return cfp(-cd(a, w), w);
    if (a.is(K_FP)) return mkFp(z3::expr(C, Z3_mk_fpa_neg(C, *a.n->e)), w);
    return mkReal(-*a.n->e, a.n->q, a.n->mag, w);
  }
  // fcmp: returns K_BOOL. code bits: 1 eq, 2 gt, 4 lt, 8 uno (llvm encoding)
  Val fcmp(unsigned code, Val a, Val b, unsigned w) {
    if (code == 0) return Val((uint64_t)0);
    if (code == 15) return Val(1);
    if (a.undef() || b.undef()) return undef();
    if (a.conc() && b.conc()) {
      double x = cd(a, w), y = cd(b, w);
      bool r = (std::isnan(x) || std::isnan(y)) ? (code & 8) : x == y ? (code & 1) : x > y ? (code & 2) : (code & 4);
      return Val((uint64_t)r);
    }
    if (a.is(K_FP) || b.is(K_FP)) {
      z3::expr x = fexpr(a, w), y = fexpr(b, w);
      z3::expr r = C.bool_val(false);
      if (code & 1) r = r || z3::expr(C, Z3_mk_fpa_eq(C, x, y));
      if (code & 2) r = r || z3::expr(C, Z3_mk_fpa_gt(C, x, y));
      if (code & 4) r = r || z3::expr(C, Z3_mk_fpa_lt(C, x, y));
      if (code & 8) r = r || z3::expr(C, Z3_mk_fpa_is_nan(C, x)) || z3::expr(C, Z3_mk_fpa_is_nan(C, y));
      return mkBool(r);
    }
    for (int i = 0; i < 2; ++i) {
      const Val& v = i ? b : a;
      if (v.conc() && !std::isfinite(cd(v, w))) {
        double d = cd(v, w);
        if (std::isnan(d)) return Val((uint64_t)!!(code & 8));
        bool bgreater = i ? d > 0 : d < 0;  // a < b
        return Val((uint64_t)(bgreater ? !!(code & 4) : !!(code & 2)));
      }
    }
    z3::expr x = rexpr(a, w), y = rexpr(b, w);
    for (int i = 0; i < 2; ++i) {  // one side beyond every value of the other
      const Val &v = i ? b : a, &o = i ? a : b;
      int q; double m;
      if (!v.conc()) continue;
      qm(o, w, q, m);
      if (!(m < std::fabs(cd(v, w)))) continue;
      bool bgreater = i ? cd(v, w) > 0 : cd(v, w) < 0;
      return Val((uint64_t)(bgreater ? !!(code & 4) : !!(code & 2)));
    }
    if (!S.names.empty() || !exps.empty() || S.lazy) {
      try {
        Poly p = S.poly.reduce(S.poly.of(x - y), S.rules);
        if (p.empty()) return Val((uint64_t)((code & 1) != 0));
        if (p.size() < 300) { x = S.poly.toExpr(p); y = C.real_val(0); }
        PolyCtx::Range rp = S.poly.range(p);
        if (rp.lo > 0) return Val((uint64_t)((code & 2) != 0));
        if (rp.hi < 0) return Val((uint64_t)((code & 4) != 0));
        Poly ng;
        for (auto& t : p) ng[t.first] = -t.second;
        if (PolyCtx::evident(p)) return Val((uint64_t)((code & 2) != 0));
        if (PolyCtx::evident(ng)) return Val((uint64_t)((code & 4) != 0));
        if (S.lazy) { x = S.lazyTerm(p); y = C.real_val(0); }
      } catch (PolyTooBig&) {
        if (S.lazy) {  // too large to expand: a name for the whole difference
          z3::expr v = S.freshReal("cmp");
          S.defs.push_back(v == x - y);
          x = v; y = C.real_val(0);
        }
      }
    }
    switch (code & 7) {
      case 0: return Val((uint64_t)0);
      case 7: return Val(1);
      case 1: return mkBool(x == y);
      case 2: return mkBool(x > y);
      case 3: return mkBool(x >= y);
      case 4: return mkBool(x < y);
      case 5: return mkBool(x <= y);
      case 6: return mkBool(x != y);
    }
    throw Unsupported{"fcmp"};
  }
  Val toInt(Val a, unsigned fw, unsigned iw, bool uns) {  // fptosi / fptoui
    if (a.undef()) return a;
    if (a.conc()) {
      double d = cd(a, fw), t = std::trunc(d);
      if (std::isnan(d) || std::isinf(d) || (uns ? (t < 0 || t >= std::ldexp(1.0, iw)) : (t < -std::ldexp(1.0, iw - 1) || t >= std::ldexp(1.0, iw - 1))))
        throw PathError{"float-cast", "float to integer conversion out of range"};
      if (uns) return Val((uint64_t)t & maskW(iw));
      return Val((uint64_t)(int64_t)t & maskW(iw));
    }
    if (a.is(K_FP)) throw Unsupported{"fp to int"};
    z3::expr x = rexpr(a, fw);
    bool neg = S.decide(x < 0);
    z3::expr t = neg ? -tofloor(-x, a.n) : tofloor(x, a.n);
    i128 lo = uns ? 0 : smin(iw), hi = uns ? ((i128)1 << iw) - 1 : smax(iw);
    double m = a.n->mag;
    i128 mm = m < 1e18 ? (i128)m + 1 : ((i128)1 << 100);
    i128 rl = neg ? -mm : 0, rh = neg ? 0 : mm;
    if (rl < lo || rh > hi) {
      if (S.decide(t < ival(lo) || t > ival(hi)))
        throw PathError{"float-cast", "float to integer conversion out of range"};
      rl = std::max(rl, lo); rh = std::min(rh, hi);
    }
    return wrap(t, rl, rh, iw);
  }
  z3::expr tofloor(const z3::expr& x, Node*) {
    z3::expr y = x.simplify();
    if (y.is_app() && y.decl().decl_kind() == Z3_OP_TO_REAL) return y.arg(0);
    return z3::expr(C, Z3_mk_real2int(C, y));
  }
  Val fromInt(Val a, unsigned iw, unsigned fw, bool uns) {
    if (a.undef()) return a;
    if (a.conc()) {
      if (uns) { uint64_t v = a.c & maskW(iw); return fw == 32 ? Val(fromF((float)v)) : Val(fromD((double)v)); }
      int64_t v = sextW(a.c, iw);
      return fw == 32 ? Val(fromF((float)v)) : Val(fromD((double)v));
    }
    i128 lo, hi; range(a, iw, lo, hi);
    z3::expr e = uns ? uexpr(a, iw) : iexpr(a, iw);
    double m = std::max(std::fabs((double)lo), std::fabs((double)hi));
    if (uns && lo < 0) m = std::ldexp(1.0, iw);
    return mkReal(z3::to_real(e), 0, m, fw);
  }
  Val rfloor(Val a, unsigned w) {
    if (a.conc()) return cfp(std::floor(cd(a, w)), w);
    if (a.undef()) return a;
    if (a.is(K_FP)) return mkFp(z3::expr(C, Z3_mk_fpa_round_to_integral(C, z3::expr(C, Z3_mk_fpa_rtn(C)), *a.n->e)), w);
    return mkReal(z3::to_real(tofloor(*a.n->e, a.n)), a.n->mag < 1e15 ? 0 : INT_MIN, a.n->mag + 1, w);
  }
  Val rceil(Val a, unsigned w) {
    if (a.conc()) return cfp(std::ceil(cd(a, w)), w);
    return fneg(rfloor(fneg(a, w), w), w);
  }
  Val rtrunc(Val a, unsigned w) {
    if (a.conc()) return cfp(std::trunc(cd(a, w)), w);
    if (a.undef()) return a;
    if (a.is(K_FP)) return mkFp(z3::expr(C, Z3_mk_fpa_round_to_integral(C, z3::expr(C, Z3_mk_fpa_rtz(C)), *a.n->e)), w);
    return S.decide(*a.n->e < 0) ? rceil(a, w) : rfloor(a, w);
  }
  Val rfmod(Val a, Val b, unsigned w) {
    if (a.conc() && b.conc()) return cfp(std::fmod(cd(a, w), cd(b, w)), w);
    if (a.undef() || b.undef()) return undef();
    if (!b.conc() || !a.is(K_REAL)) throw Unsupported{"fmod"};
    double y = std::fabs(cd(b, w));
    if (!(y > 0) || !std::isfinite(y)) throw Unsupported{"fmod divisor"};
    z3::expr x = *a.n->e, Y = dval(y);
    bool neg = S.decide(x < 0);
    if (a.n->mag / y < 6) {  // few whole turns: one path each, so that sines stay recognisable
      int n = (int)(a.n->mag / y) + 1;
      for (int t = 0; t <= n; ++t)
        if (S.decide(neg ? x > -dval(y) * (t + 1) : x < dval(y) * (t + 1))) {
          z3::expr r = t == 0 ? x : (neg ? x + dval(y) * t : x - dval(y) * t).simplify();
          return mkReal(r, INT_MIN, std::min(y, a.n->mag), w);
        }
    }
    z3::expr k = S.freshInt("mod");
    z3::expr r = x - z3::to_real(k) * Y;
    if (neg) S.assertRaw(r <= 0 && r > -Y); else S.assertRaw(r >= 0 && r < Y);
    return mkReal(r, INT_MIN, std::min(y, a.n->mag), w);
  }
  Val rround(Val a, unsigned w) {
    if (a.conc()) return cfp(w == 32 ? (double)std::round(asF(a.c)) : std::round(asD(a.c)), w);
    if (a.undef()) return a;
    if (a.is(K_FP)) throw Unsupported{"round fp"};
    bool neg = S.decide(*a.n->e < 0);
    z3::expr x = neg ? -*a.n->e : *a.n->e;
    z3::expr f = z3::to_real(z3::expr(C, Z3_mk_real2int(C, (x + C.real_val("1/2")).simplify())));
    return mkReal(neg ? -f : f, a.n->mag < 1e15 ? 0 : INT_MIN, a.n->mag + 1, w);
  }
  Val rabs(Val a, unsigned w) {
    if (a.undef()) return a;
    if (a.conc()) return cfp(std::fabs(cd(a, w)), w);
    if (a.is(K_FP)) return mkFp(z3::expr(C, Z3_mk_fpa_abs(C, *a.n->e)), w);
    const z3::expr& x = *a.n->e;
    if (S.nonlinear) return S.decide(x < 0) ? fneg(a, w) : a;
    return mkReal(z3::ite(x < 0, -x, x), a.n->q, a.n->mag, w);
  }
  Val select(Val c, Val a, Val b, Kind k, unsigned w) {  // scalar select, symbolic condition
    if (a.undef() || b.undef() || c.undef()) {
      if (c.undef()) throw PathError{"uninit", "select on uninitialised value"};
      return S.decide(bexpr(c)) ? a : b;
    }
    if (k == K_BOOL) return mkBool(z3::ite(bexpr(c), bexpr(a), bexpr(b)));
    if (k == K_INT && (a.conc() || a.is(K_INT)) && (b.conc() || b.is(K_INT))) {
      i128 al, ah, bl, bh;
      range(a, w, al, ah); range(b, w, bl, bh);
      return mkInt(z3::ite(bexpr(c), iexpr(a, w), iexpr(b, w)), std::min(al, bl), std::max(ah, bh), w);
    }
    return S.decide(bexpr(c)) ? a : b;
  }
  // ---------- transcendental functions on reals
  struct Angle { z3::expr arg; z3::expr s, c; };
  std::vector<Angle> atoms;  // per path
  Angle* atomAngle(const z3::expr& arg) {
    z3::expr a = arg.simplify();
    for (auto& t : atoms) if (z3::eq(t.arg, a)) return &t;
    z3::expr sv = S.freshReal("sin"), cv = S.freshReal("cos");
    atoms.push_back(Angle{a, sv, cv});
    if (S.lazy) S.defs.push_back(sv * sv + cv * cv == 1);
    else { S.nonlinear = true; S.assertRaw(sv * sv + cv * cv == 1); }
    S.assertRaw(sv <= 1 && sv >= -1 && cv <= 1 && cv >= -1);
    // anchor at zero, first quadrant signs (true facts about sin/cos)
    S.poly.setRange(cv, -1, 1); S.poly.setRange(sv, -1, 1);
    Poly r = S.poly.of(sv * sv + cv * cv - 1);
    S.rules.push_back(r);
    return &atoms.back();
  }
  static bool isPiMul(const Q& q, int& k) {  // multiple of pi/2 (the double M_PI)
    if (q == 0) { k = 0; return true; }
    double d = q.convert_to<double>();
    double r = d / (M_PI / 2);
    double n = std::round(r);
    if (n != 0 && std::fabs(n) < 64 && std::fabs(r - n) < 1e-12) { k = (int)n; return true; }
    return false;
  }
  void sincos(const z3::expr& x, z3::expr& s, z3::expr& c) {
    Poly p = S.poly.of(x);
    s = C.real_val(0); c = C.real_val(1);
    Poly none;
    for (auto& t : p) {
      z3::expr ts(C), tc(C);
      if (t.first.empty()) {
        int k;
        if (isPiMul(t.second, k)) {
          static const int S4[4] = {0, 1, 0, -1}, C4[4] = {1, 0, -1, 0};
          k = ((k % 4) + 4) % 4;
          ts = C.real_val(S4[k]); tc = C.real_val(C4[k]);
        } else {
          Q a = t.second; bool neg = a < 0; if (neg) a = -a;
          Angle* an = atomAngle(S.poly.qexpr(a));
          ts = neg ? -an->s : an->s; tc = an->c;
          double d = a.convert_to<double>();
          if (d < 100) {  // numeric enclosure of the constant's sine and cosine
            z3::expr es = dval(std::sin(d)), ec = dval(std::cos(d)), eps = C.real_val("1/1000000000000");
            S.assertRaw(an->s - es <= eps && es - an->s <= eps && an->c - ec <= eps && ec - an->c <= eps);
          }
        }
      } else {
        Q q = t.second; bool neg = q < 0; if (neg) q = -q;
        int mult = 1;
        if (denominator(q) == 1 && q <= 4) { mult = (int)numerator(q); q = 1; }
        Poly one; one[t.first] = q;
        z3::expr ae = S.poly.toExpr(one);
        // a multiple of two pi: 2*M_PI*k with integer k
        if (ae.is_app() && isTwoPiInt(t.first, t.second)) continue;
        Angle* an = atomAngle(ae);
        ts = an->s; tc = an->c;
        z3::expr bs = ts, bc = tc;
        for (int i = 1; i < mult; ++i) { z3::expr ns = ts * bc + tc * bs, nc = tc * bc - ts * bs; ts = ns; tc = nc; }
        if (neg) ts = -ts;
      }
      z3::expr ns = s * tc + c * ts, nc = c * tc - s * ts;
      s = ns.simplify(); c = nc.simplify();
    }
  }
  bool isTwoPiInt(const Mono& m, const Q& q) {
    if (m.size() != 1 || m[0].second != 1) return false;
    const z3::expr& a = S.poly.atoms[m[0].first];
    if (!(a.is_app() && a.decl().decl_kind() == Z3_OP_TO_REAL)) return false;
    int k;
    return isPiMul(q, k) && k % 4 == 0;
  }
  Val rsin(Val a, unsigned w, bool cosine) {
    if (a.undef()) return a;
    if (a.conc()) { if (w == 32) return fromF(cosine ? std::cos(asF(a.c)) : std::sin(asF(a.c))); return fromD(cosine ? std::cos(asD(a.c)) : std::sin(asD(a.c))); }
    if (a.is(K_FP)) throw Unsupported{"sin fp"};
    z3::expr s(C), c(C);
    sincos(*a.n->e, s, c);
    return mkReal(cosine ? c : s, INT_MIN, 1.0, w);
  }
  bool polyZero(const z3::expr& e) {
    try { return S.poly.reduce(S.poly.of(e), S.rules).empty(); } catch (PolyTooBig&) { return false; }
  }
  bool polyNear(const z3::expr& a, const z3::expr& b) {  // equal up to the rounding of constants
    try {
      Poly p = S.expand(S.poly.reduce(S.poly.of(a - b), S.rules));
      if (p.empty()) return true;
      double d = S.poly.bound(p), m = S.poly.bound(S.expand(S.poly.reduce(S.poly.of(b), S.rules)));
      return d < 1e-9 || (std::isfinite(m) && d < 1e-13 * m);
    } catch (PolyTooBig&) { return false; }
  }
  Val ratan2(Val y, Val x, unsigned w) {
    if (y.undef() || x.undef()) return undef();
    if (y.conc() && x.conc()) return w == 32 ? Val(fromF(std::atan2(asF(y.c), asF(x.c)))) : Val(fromD(std::atan2(asD(y.c), asD(x.c))));
    if (y.is(K_FP) || x.is(K_FP)) throw Unsupported{"atan2 fp"};
    z3::expr ye = rexpr(y, w), xe = rexpr(x, w), pi = dval(M_PI);
    // atan2(sin t, cos t) with a known linear combination t of angle atoms
    std::vector<int> co(atoms.size(), 0);
    size_t n = atoms.size(), total = 1;
    for (size_t i = 0; i < n && total <= 243; ++i) total *= 3;
    if (n && total <= 243)
      for (size_t m = 0; m < total; ++m) {
        size_t t = m;
        z3::expr s = C.real_val(0), c = C.real_val(1), arg = C.real_val(0);
        for (size_t i = 0; i < n; ++i, t /= 3) {
          int k = (int)(t % 3); if (k == 0) continue; if (k == 2) k = -1;
          z3::expr ts = k > 0 ? atoms[i].s : -atoms[i].s, tc = atoms[i].c;
          z3::expr ns = s * tc + c * ts, nc = c * tc - s * ts;
          s = ns; c = nc; arg = arg + (k > 0 ? atoms[i].arg : -atoms[i].arg);
        }
        if (polyZero(ye - s) && polyZero(xe - c)) {
          z3::expr k = S.freshInt("turn");
          z3::expr r = arg + z3::to_real(k) * (pi * 2);
          S.assertRaw(r <= pi && r > -pi);
          return mkReal(r, INT_MIN, 3.2, w);
        }
      }
    bool z = S.decide(xe == 0 && ye == 0);
    if (z) return cfp(0.0, w);
    z3::expr t = S.freshReal("atan2"), r = S.freshReal("rad");
    z3::expr s(C), c(C);
    sincos(t, s, c);
    S.nonlinear = true;
    S.assertRaw(r > 0 && r * r == xe * xe + ye * ye);
    S.assertRaw(r * s == ye && r * c == xe);
    S.assertRaw(t <= pi && t > -pi);
    S.assertRaw(z3::implies(ye > 0, t > 0 && t < pi) && z3::implies(ye < 0, t < 0) &&
                z3::implies(ye == 0 && xe > 0, t == 0) && z3::implies(ye == 0 && xe < 0, t == pi));
    return mkReal(t, INT_MIN, 3.2, w);
  }
  std::vector<std::pair<z3::expr, z3::expr>> sqrts, exps, logs;
  Val rsqrt(Val a, unsigned w) {
    if (a.undef()) return a;
    if (a.conc()) return w == 32 ? Val(fromF(std::sqrt(asF(a.c)))) : Val(fromD(std::sqrt(asD(a.c))));
    if (a.is(K_FP)) return mkFp(z3::expr(C, Z3_mk_fpa_sqrt(C, rne(), *a.n->e)), w);
    z3::expr x = *a.n->e;
    for (auto& p : sqrts) if (z3::eq(p.first, x)) return mkReal(p.second, INT_MIN, INFINITY, w);
    if (S.decide(x < 0)) return cfp(NAN, w);
    z3::expr r = S.freshReal("sqrt");
    S.nonlinear = true;
    S.assertRaw(r >= 0 && r * r == x);
    S.assertRaw(z3::implies(x > 0, r > 0));
    try { S.rules.push_back(S.poly.of(r * r - x)); } catch (PolyTooBig&) {}
    sqrts.push_back({x, r});
    return mkReal(r, INT_MIN, a.n->mag < INFINITY ? std::sqrt(a.n->mag) + 1 : INFINITY, w);
  }
  Val rexp(Val a, unsigned w) {
    if (a.undef()) return a;
    if (a.conc()) return w == 32 ? Val(fromF(std::exp(asF(a.c)))) : Val(fromD(std::exp(asD(a.c))));
    if (a.is(K_FP)) throw Unsupported{"exp fp"};
    z3::expr x = *a.n->e;
    for (auto& p : exps) if (z3::eq(p.first, x) || polyNear(p.first, x)) return mkReal(p.second, INT_MIN, INFINITY, w);
    for (auto& p : logs) if (z3::eq(p.second, x) || polyNear(p.second, x)) return mkReal(p.first, INT_MIN, INFINITY, w);
    z3::expr r = S.freshReal("exp");
    try {
      PolyCtx::Range rx = S.poly.range(S.poly.reduce(S.poly.of(x), S.rules));
      if (rx.hi <= 0) S.poly.setRange(r, 0, 1);
      else if (std::isfinite(rx.hi) && !S.decide(x > 0)) S.poly.setRange(r, 0, 1);
    } catch (PolyTooBig&) {}
    S.assertRaw(r > 0 && r >= 1 + x && z3::implies(x == 0, r == 1) && z3::implies(x < 0, r < 1) && z3::implies(x > 0, r > 1));
    for (auto& p : exps) S.assertRaw((p.first < x) == (p.second < r));
    for (double c : {-50., -5., -2., -1., -0.5, -0.1}) {
      S.assertRaw(z3::implies(x >= dval(c), r >= dval(std::exp(c) * (1 - 1e-12))));
      S.assertRaw(z3::implies(x <= dval(c), r <= dval(std::exp(c) * (1 + 1e-12))));
    }
    exps.push_back({x, r});
    return mkReal(r, INT_MIN, INFINITY, w);
  }
  Val rlog(Val a, unsigned w) {
    if (a.undef()) return a;
    if (a.conc()) return w == 32 ? Val(fromF(std::log(asF(a.c)))) : Val(fromD(std::log(asD(a.c))));
    if (a.is(K_FP)) throw Unsupported{"log fp"};
    z3::expr x = *a.n->e;
    PolyCtx::Range rx = rangeOf(x);
    for (auto& p : logs) if (z3::eq(p.first, x) || polyNear(p.first, x)) return mkReal(p.second, INT_MIN, INFINITY, w);
    for (auto& p : exps) if (z3::eq(p.second, x) || polyNear(p.second, x)) return mkReal(p.first, INT_MIN, INFINITY, w);
    if (!(rx.lo > 0) && S.decide(x <= 0)) return S.decide(x == 0) ? cfp(-INFINITY, w) : cfp(NAN, w);
    z3::expr r = S.freshReal("log");
    double mag = INFINITY;
    if (rx.lo > 0 && rx.hi < INFINITY) {
      double l = std::log(rx.lo) - 1e-12, h = std::log(rx.hi) + 1e-12;
      S.poly.setRange(r, l, h);
      S.assertRaw(r >= dval(l) && r <= dval(h));
      mag = std::max(std::fabs(l), std::fabs(h));
    }
    S.assertRaw(r <= x - 1 && z3::implies(x == 1, r == 0) && z3::implies(x < 1, r < 0) && z3::implies(x > 1, r > 0));
    for (auto& p : logs) S.assertRaw((p.first < x) == (p.second < r));
    for (double c : {0.1, 0.5, 2. / 3, 0.9, 1.5, 2., 10.}) {
      S.assertRaw(z3::implies(x >= dval(c), r >= dval(std::log(c) - 1e-12)));
      S.assertRaw(z3::implies(x <= dval(c), r <= dval(std::log(c) + 1e-12)));
    }
    logs.push_back({x, r});
    return mkReal(r, INT_MIN, mag, w);
  }
  void resetPath() { arena.clear(); atoms.clear(); invs.clear(); sqrts.clear(); exps.clear(); logs.clear(); }
  // ---------- IEEE fp
  z3::expr rne() { return z3::expr(C, Z3_mk_fpa_rne(C)); }
  z3::sort fsort(unsigned w) { return w == 32 ? C.fpa_sort(8, 24) : C.fpa_sort(11, 53); }
  z3::expr fexpr(const Val& v, unsigned w) {
    if (v.conc()) return w == 32 ? z3::expr(C, Z3_mk_fpa_numeral_float(C, asF(v.c), fsort(32))) : z3::expr(C, Z3_mk_fpa_numeral_double(C, asD(v.c), fsort(64)));
    if (v.n->k == K_FP) return *v.n->e;
    throw Unsupported{"fp operand kind"};
  }
  Val mkFp(const z3::expr& e0, unsigned w) {
    z3::expr e = e0.simplify();
    Node* n = mk(K_FP);
    n->e.reset(new z3::expr(e));
    n->width = w;
    return Val(n);
  }
  Val fconv(Val a, unsigned from, unsigned to) {
    if (a.undef() || from == to) return a;
    if (a.conc()) return to == 32 ? Val(fromF((float)asD(a.c))) : Val(fromD((double)asF(a.c)));
    if (a.is(K_FP)) return mkFp(z3::expr(C, Z3_mk_fpa_to_fp_float(C, rne(), *a.n->e, fsort(to))), to);
    return mkReal(*a.n->e, a.n->q, a.n->mag, to);
  }
};
}  // namespace sx
