// Polynomial normal form over z3 real terms, with reduction by side rules
// (s^2 -> 1-c^2, r^2 -> radicand, inv*lm(d) -> ...).  Used to pre-normalise
// equality obligations before they are handed to the SMT solver.
#pragma once
#include <z3++.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <string>
#include <memory>
namespace sx {
typedef boost::multiprecision::cpp_rational Q;
typedef std::vector<std::pair<unsigned, unsigned>> Mono;  // (var, exp) sorted by var
struct MonoLess {  // graded reverse lexicographic: later atoms are larger
  bool operator()(const Mono& a, const Mono& b) const {
    unsigned da = 0, db = 0;
    for (auto& p : a) da += p.second;
    for (auto& p : b) db += p.second;
    if (da != db) return da < db;
    size_t i = 0;
    for (; i < a.size() && i < b.size(); ++i) {
      if (a[i].first != b[i].first) return a[i].first < b[i].first;
      if (a[i].second != b[i].second) return a[i].second > b[i].second;
    }
    return a.size() < b.size();
  }
};
typedef std::map<Mono, Q, MonoLess> Poly;
struct PolyTooBig {};

struct PolyCtx {
  z3::context& ctx;
  std::unordered_map<unsigned, unsigned> atomOf;  // ast id -> var
  std::vector<z3::expr> atoms;
  std::unordered_map<unsigned, std::shared_ptr<Poly>> memo;
  z3::expr_vector keep;  // keep asts alive so ids stay unique
  size_t limit = 4000;
  PolyCtx(z3::context& c) : ctx(c), keep(c) {}
  void clear() { atomOf.clear(); atoms.clear(); memo.clear(); rng.clear(); later.clear(); keep = z3::expr_vector(ctx); }
  struct Range { double lo, hi; };
  std::unordered_map<unsigned, Range> rng;  // var -> interval it lies in
  std::unordered_map<unsigned, Range> later;  // ast id -> interval, for terms that may become atoms
  void rangeLater(const z3::expr& e, double lo, double hi) { keep.push_back(e); later[e.id()] = Range{lo, hi}; }
  void setRange(const z3::expr& e, double lo, double hi) { rng[atom(e)] = Range{lo, hi}; }
  // an interval around the values of p (widened for rounding)
  Range range(const Poly& p) const {
    Range a = range1(p);
    if (p.size() < 2 || p.size() > 12) return a;
    // factor one variable out of the terms that have it
    std::set<unsigned> vars;
    for (auto& t : p) for (auto& m : t.first) vars.insert(m.first);
    for (unsigned v : vars) {
      auto it = rng.find(v);
      if (it == rng.end()) continue;
      Poly q, r;
      for (auto& t : p) {
        Mono m;
        bool has = false;
        for (auto& x : t.first) {
          if (x.first != v) { m.push_back(x); continue; }
          has = true;
          if (x.second > 1) m.push_back({x.first, x.second - 1});
        }
        (has ? q : r)[m] = t.second;
      }
      if (q.size() < 2) continue;
      Range b = range(q), c = range1(r);
      double w[4] = {b.lo * it->second.lo, b.lo * it->second.hi, b.hi * it->second.lo, b.hi * it->second.hi};
      double l = *std::min_element(w, w + 4) + c.lo, h = *std::max_element(w, w + 4) + c.hi;
      if (l != l || h != h) continue;
      double e = 1e-12 * std::max(std::fabs(l), std::fabs(h));
      if (!std::isfinite(e)) e = 0;
      a.lo = std::max(a.lo, l - e);
      a.hi = std::min(a.hi, h + e);
    }
    return a;
  }
  Range range1(const Poly& p) const {
    double l = 0, h = 0;
    for (auto& t : p) {
      double c = t.second.convert_to<double>(), a = 1, b = 1;
      for (auto& m : t.first) {
        auto it = rng.find(m.first);
        if (it == rng.end()) {
          if (m.second % 2) return Range{-INFINITY, INFINITY};
          double w[2] = {a * INFINITY, b * INFINITY};
          if (a != a || b != b || w[0] != w[0] || w[1] != w[1]) return Range{-INFINITY, INFINITY};
          if (a < 0) return Range{-INFINITY, INFINITY};
          a = 0; b = INFINITY;
          continue;
        }
        double x = it->second.lo, y = it->second.hi;
        for (unsigned i = 0; i < m.second / 2; ++i) {
          double u = x <= 0 && y >= 0 ? 0 : std::min(x * x, y * y), v = std::max(x * x, y * y);
          double q[4] = {a * u, a * v, b * u, b * v};
          a = *std::min_element(q, q + 4); b = *std::max_element(q, q + 4);
        }
        if (m.second % 2) {
          double q[4] = {a * x, a * y, b * x, b * y};
          a = *std::min_element(q, q + 4); b = *std::max_element(q, q + 4);
        }
      }
      l += c > 0 ? c * a : c * b;
      h += c > 0 ? c * b : c * a;
    }
    if (l != l || h != h) return Range{-INFINITY, INFINITY};
    double e = 1e-12 * (std::isfinite(l) && std::isfinite(h) ? std::max(std::fabs(l), std::fabs(h)) : 0);
    return Range{l - e, h + e};
  }
  // bound of |p|, infinite when an atom has no known bound
  double bound(const Poly& p) const {
    double s = 0;
    for (auto& t : p) {
      double x = std::fabs(t.second.convert_to<double>());
      for (auto& m : t.first) {
        auto it = rng.find(m.first);
        if (it == rng.end()) return INFINITY;
        double g = std::max(std::fabs(it->second.lo), std::fabs(it->second.hi));
        for (unsigned i = 0; i < m.second; ++i) x *= g;
      }
      s += x;
    }
    return s;
  }
  // p > 0 for all values: even powers with positive coefficients and a positive constant
  static bool evident(const Poly& p) {
    bool c = false;
    for (auto& t : p) {
      if (t.second <= 0) return false;
      for (auto& m : t.first) if (m.second % 2) return false;
      c |= t.first.empty();
    }
    return c;
  }
  Poly subst(const Poly& p, const std::map<unsigned, Poly>& d) {
    Poly r;
    for (auto& t : p) {
      Poly x; x[Mono()] = t.second;
      Mono rest;
      for (auto& m : t.first) {
        auto it = d.find(m.first);
        if (it == d.end()) rest.push_back(m);
        else for (unsigned i = 0; i < m.second; ++i) x = mul(x, it->second);
      }
      Poly y; y[rest] = 1;
      for (auto& u : mul(x, y)) add(r, u.first, u.second);
      if (r.size() > 4 * limit) throw PolyTooBig();
    }
    return r;
  }
  unsigned atom(const z3::expr& e) {
    auto it = atomOf.find(e.id());
    if (it != atomOf.end()) return it->second;
    unsigned v = atoms.size();
    atoms.push_back(e);
    keep.push_back(e);
    atomOf[e.id()] = v;
    auto l = later.find(e.id());
    if (l != later.end()) rng[v] = l->second;
    return v;
  }
  static void add(Poly& a, const Mono& m, const Q& q) {
    if (q == 0) return;
    auto r = a.emplace(m, q);
    if (!r.second) {
      r.first->second += q;
      if (r.first->second == 0) a.erase(r.first);
    }
  }
  static Mono mulM(const Mono& a, const Mono& b) {
    Mono r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else { r.push_back({a[i].first, a[i].second + b[j].second}); ++i; ++j; }
    }
    return r;
  }
  Poly mul(const Poly& a, const Poly& b) {
    Poly r;
    if (a.size() * b.size() > 40 * limit) throw PolyTooBig();
    for (auto& x : a)
      for (auto& y : b) add(r, mulM(x.first, y.first), x.second * y.second);
    if (r.size() > limit) throw PolyTooBig();
    return r;
  }
  static Q num(const z3::expr& e) {
    std::string s = Z3_get_numeral_string(e.ctx(), e);
    size_t p = s.find('/');
    if (p == std::string::npos) return Q(boost::multiprecision::cpp_int(s));
    return Q(boost::multiprecision::cpp_int(s.substr(0, p)),
             boost::multiprecision::cpp_int(s.substr(p + 1)));
  }
  const Poly& of(const z3::expr& e) {
    auto it = memo.find(e.id());
    if (it != memo.end()) return *it->second;
    keep.push_back(e);
    auto r = std::make_shared<Poly>();
    if (e.is_numeral()) {
      Q q = num(e);
      if (q != 0) (*r)[Mono()] = q;
    } else if (e.is_app()) {
      Z3_decl_kind k = e.decl().decl_kind();
      unsigned n = e.num_args();
      if (k == Z3_OP_ADD) {
        for (unsigned i = 0; i < n; ++i)
          for (auto& t : of(e.arg(i))) add(*r, t.first, t.second);
      } else if (k == Z3_OP_SUB) {
        for (unsigned i = 0; i < n; ++i)
          for (auto& t : of(e.arg(i))) add(*r, t.first, i ? Q(-t.second) : t.second);
      } else if (k == Z3_OP_UMINUS) {
        for (auto& t : of(e.arg(0))) add(*r, t.first, -t.second);
      } else if (k == Z3_OP_MUL) {
        Poly p; p[Mono()] = 1;
        for (unsigned i = 0; i < n; ++i) p = mul(p, of(e.arg(i)));
        *r = p;
      } else if (k == Z3_OP_DIV && of(e.arg(1)).size() == 1 && of(e.arg(1)).begin()->first.empty()) {
        Q d = of(e.arg(1)).begin()->second;
        for (auto& t : of(e.arg(0))) add(*r, t.first, t.second / d);
      } else if (k == Z3_OP_POWER && e.arg(1).is_numeral() && num(e.arg(1)) > 0 && num(e.arg(1)) < 8 &&
                 denominator(num(e.arg(1))) == 1) {
        int x = (int)numerator(num(e.arg(1)));
        Poly p; p[Mono()] = 1;
        for (int i = 0; i < x; ++i) p = mul(p, of(e.arg(0)));
        *r = p;
      } else {
        (*r)[Mono{{atom(e), 1}}] = 1;
      }
    } else {
      (*r)[Mono{{atom(e), 1}}] = 1;
    }
    if (r->size() > limit) throw PolyTooBig();
    memo[e.id()] = r;
    return *r;
  }
  // rules: each polynomial == 0
  static bool divides(const Mono& a, const Mono& b, Mono& q) {
    q.clear();
    size_t i = 0;
    for (auto& p : b) {
      if (i < a.size() && a[i].first == p.first) {
        if (a[i].second > p.second) return false;
        if (p.second > a[i].second) q.push_back({p.first, p.second - a[i].second});
        ++i;
      } else {
        if (i < a.size() && a[i].first < p.first) return false;
        q.push_back(p);
      }
    }
    return i == a.size();
  }
  Poly reduce(Poly p, const std::vector<Poly>& rules) {
    if (rules.empty()) return p;
    Poly out;
    size_t steps = 0;
    while (!p.empty()) {
      auto lt = std::prev(p.end());
      bool done = false;
      for (auto& r : rules) {
        if (r.empty()) continue;
        auto rl = std::prev(r.end());
        Mono q;
        if (divides(rl->first, lt->first, q)) {
          Q f = lt->second / rl->second;
          for (auto& t : r) add(p, mulM(t.first, q), -(f * t.second));
          done = true;
          break;
        }
      }
      if (!done) {
        out.insert(*lt);
        p.erase(std::prev(p.end()));
      }
      if (++steps > 200000 || p.size() > 10 * limit) throw PolyTooBig();
    }
    return out;
  }
  z3::expr qexpr(const Q& q) {
    std::string s = numerator(q).str() + "/" + denominator(q).str();
    return ctx.real_val(s.c_str());
  }
  z3::expr toExpr(const Poly& p) {
    if (p.empty()) return ctx.real_val(0);
    z3::expr_vector v(ctx);
    for (auto& t : p) {
      z3::expr_vector f(ctx);
      if (t.second != 1 || t.first.empty()) f.push_back(qexpr(t.second));
      for (auto& m : t.first)
        for (unsigned i = 0; i < m.second; ++i) f.push_back(atoms[m.first]);
      z3::expr x = f[0];
      for (unsigned i = 1; i < f.size(); ++i) x = x * f[i];
      v.push_back(x);
    }
    z3::expr r = v[0];
    for (unsigned i = 1; i < v.size(); ++i) r = r + v[i];
    return r;
  }
};
}  // namespace sx
