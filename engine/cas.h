// Multivariate polynomials / fractions over Q with side relations v^n = poly.
// Used as the term language of "Real mode": every symbolic double is a fraction
// num / prod(den_i^e_i) whose den_i are polynomials known (forked) to be nonzero.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace cas {
typedef uint32_t Var;
struct Mono {
  std::vector<std::pair<Var, uint32_t>> f; // sorted by var
  bool operator==(const Mono &o) const { return f == o.f; }
  uint32_t degree() const { uint32_t d = 0; for (auto &p : f) d += p.second; return d; }
};
// admissible order: lexicographic with larger var index more significant
inline int cmp(const Mono &a, const Mono &b) {
  int i = (int)a.f.size() - 1, j = (int)b.f.size() - 1;
  for (;; i--, j--) {
    if (i < 0 && j < 0) return 0;
    if (i < 0) return -1;
    if (j < 0) return 1;
    if (a.f[i].first != b.f[j].first) return a.f[i].first < b.f[j].first ? -1 : 1;
    if (a.f[i].second != b.f[j].second) return a.f[i].second < b.f[j].second ? -1 : 1;
  }
}
struct MLess { bool operator()(const Mono &a, const Mono &b) const { return cmp(a, b) < 0; } };
inline Mono mmul(const Mono &a, const Mono &b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.f.size() || j < b.f.size()) {
    if (j >= b.f.size() || (i < a.f.size() && a.f[i].first < b.f[j].first)) r.f.push_back(a.f[i++]);
    else if (i >= a.f.size() || b.f[j].first < a.f[i].first) r.f.push_back(b.f[j++]);
    else { r.f.push_back({a.f[i].first, a.f[i].second + b.f[j].second}); i++; j++; }
  }
  return r;
}
inline bool mdiv(const Mono &a, const Mono &b, Mono &r) { // a / b
  r.f.clear(); size_t i = 0;
  for (auto &p : b.f) {
    while (i < a.f.size() && a.f[i].first < p.first) r.f.push_back(a.f[i++]);
    if (i >= a.f.size() || a.f[i].first != p.first || a.f[i].second < p.second) return false;
    if (a.f[i].second > p.second) r.f.push_back({p.first, a.f[i].second - p.second});
    i++;
  }
  while (i < a.f.size()) r.f.push_back(a.f[i++]);
  return true;
}

struct Poly {
  std::map<Mono, mpq_class, MLess> t;
  Poly() {}
  Poly(const mpq_class &c) { if (c != 0) t[Mono()] = c; }
  static Poly var(Var v, uint32_t e = 1) { Poly p; Mono m; if (e) m.f.push_back({v, e}); p.t[m] = 1; return p; }
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.f.empty()); }
  mpq_class constant() const { auto it = t.find(Mono()); return it == t.end() ? mpq_class(0) : it->second; }
  void add(const Mono &m, const mpq_class &c) {
    auto it = t.find(m);
    if (it == t.end()) { if (c != 0) t.emplace(m, c); }
    else { it->second += c; if (it->second == 0) t.erase(it); }
  }
  const Mono &lm() const { return t.rbegin()->first; }
  const mpq_class &lc() const { return t.rbegin()->second; }
  bool operator==(const Poly &o) const { return t == o.t; }
  uint32_t degree() const { uint32_t d = 0; for (auto &p : t) d = std::max(d, p.first.degree()); return d; }
  std::vector<Var> vars() const { std::vector<Var> r; for (auto &p : t) for (auto &q : p.first.f) r.push_back(q.first); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
  std::string key() const {
    std::string s; for (auto &p : t) { s += p.second.get_str(); for (auto &q : p.first.f) { s += "*v" + std::to_string(q.first); if (q.second > 1) s += "^" + std::to_string(q.second); } s += "+"; }
    return s;
  }
};
inline Poly operator+(const Poly &a, const Poly &b) { Poly r = a; for (auto &p : b.t) r.add(p.first, p.second); return r; }
inline Poly operator-(const Poly &a, const Poly &b) { Poly r = a; for (auto &p : b.t) r.add(p.first, -p.second); return r; }
inline Poly scale(const Poly &a, const mpq_class &c) { Poly r; if (c == 0) return r; for (auto &p : a.t) r.t.emplace(p.first, p.second * c); return r; }

// relations: v^n -> poly (in lower vars)
struct Rel { uint32_t n; Poly p; };
inline std::unordered_map<Var, Rel> &rels() { static std::unordered_map<Var, Rel> r; return r; }

Poly mul(const Poly &a, const Poly &b);
inline Poly ppow(const Poly &a, uint32_t e) { Poly r(mpq_class(1)); for (uint32_t i = 0; i < e; i++) r = mul(r, a); return r; }

inline bool reducible(const Mono &m, Var &v, uint32_t &n) {
  auto &R = rels(); if (R.empty()) return false;
  for (int i = (int)m.f.size() - 1; i >= 0; i--) { auto it = R.find(m.f[i].first); if (it != R.end() && m.f[i].second >= it->second.n) { v = m.f[i].first; n = it->second.n; return true; } }
  return false;
}
inline Poly reduce(const Poly &a) {
  auto &R = rels(); if (R.empty()) return a;
  bool any = false; Var v; uint32_t n;
  for (auto &p : a.t) if (reducible(p.first, v, n)) { any = true; break; }
  if (!any) return a;
  Poly r;
  for (auto &p : a.t) {
    if (!reducible(p.first, v, n)) { r.add(p.first, p.second); continue; }
    Mono rest; uint32_t e = 0;
    for (auto &q : p.first.f) if (q.first == v) e = q.second; else rest.f.push_back(q);
    uint32_t k = e / n; 
    if (e % n) { Mono x; x.f.push_back({v, e % n}); rest = mmul(rest, x); }
    Poly base; base.t[rest] = p.second;
    Poly rp = ppow(R[v].p, k);
    Poly m = mul(base, rp);
    for (auto &q : m.t) r.add(q.first, q.second);
  }
  return r;
}
inline uint64_t &opCount() { static uint64_t c = 0; return c; }
inline Poly mul(const Poly &a, const Poly &b) {
  Poly r; if (a.zero() || b.zero()) return r;
  if (a.isConst()) return scale(b, a.constant());
  if (b.isConst()) return scale(a, b.constant());
  opCount() += a.t.size() * b.t.size();
  for (auto &p : a.t) for (auto &q : b.t) r.add(mmul(p.first, q.first), p.second * q.second);
  return reduce(r);
}
// exact division; false if not divisible (plain polynomial ring, no relations)
inline bool pdiv(const Poly &a, const Poly &b, Poly &q, size_t limit = 20000) {
  q = Poly(); if (b.zero()) return false;
  if (b.isConst()) { q = scale(a, 1 / b.constant()); return true; }
  Poly r = a; size_t n = 0;
  // quick degree test on each var of leading monomial
  while (!r.zero()) {
    Mono m; if (!mdiv(r.lm(), b.lm(), m)) return false;
    mpq_class c = r.lc() / b.lc();
    q.add(m, c);
    n += b.t.size(); if (n > limit) return false;
    for (auto &p : b.t) r.add(mmul(p.first, m), -(c * p.second));
  }
  return true;
}
// perfect square test
inline bool qsqrt(const mpq_class &c, mpq_class &r) {
  if (c < 0) return false;
  mpz_class n = c.get_num(), d = c.get_den();
  if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
  mpz_class a = sqrt(n), b = sqrt(d); r = mpq_class(a, b); return true;
}
inline bool psqrt(const Poly &a, Poly &s) {
  s = Poly(); if (a.zero()) return true;
  mpq_class c; Mono m;
  for (auto &p : a.lm().f) { if (p.second % 2) return false; m.f.push_back({p.first, p.second / 2}); }
  if (!qsqrt(a.lc(), c)) return false;
  s.add(m, c); Poly r = a; { Poly l; l.t[m] = c; Poly l2; l2.t[mmul(m, m)] = c * c; r = r - l2; }
  Mono lead = m; mpq_class lcf = c; int it = 0;
  while (!r.zero()) {
    if (++it > 200) return false;
    Mono d; if (!mdiv(r.lm(), lead, d)) return false;
    if (cmp(d, lead) >= 0) return false;
    mpq_class k = r.lc() / (2 * lcf);
    // r -= k*d*(2*s + k*d)
    Poly t; t.t[d] = k; Poly u = scale(s, 2) + t; Poly w; for (auto &p : u.t) w.add(mmul(p.first, d), p.second * k);
    Poly rn = r - w; if (!rn.zero() && cmp(rn.lm(), r.lm()) >= 0) return false;
    r = rn; s = s + t;
  }
  return true;
}

// ---- fractions ----
struct DenTab { std::vector<Poly> p; std::unordered_map<std::string, int> idx; };
inline DenTab &dens() { static DenTab d; return d; }
inline int denId(const Poly &monic) { auto k = monic.key(); auto &D = dens(); auto it = D.idx.find(k); if (it != D.idx.end()) return it->second; D.p.push_back(monic); D.idx[k] = D.p.size() - 1; return D.p.size() - 1; }

struct RF {
  Poly n; std::map<int, int> d; // den factor -> exponent > 0
  RF() {}
  RF(const mpq_class &c) : n(c) {}
  RF(const Poly &p) : n(p) {}
  bool isConst() const { return d.empty() && n.isConst(); }
  std::string key() const { std::string s = n.key(); for (auto &p : d) s += "/" + std::to_string(p.first) + "^" + std::to_string(p.second); return s; }
};
inline bool hasRel(const Poly &p) { auto &R = rels(); if (R.empty()) return false; for (auto &t : p.t) for (auto &q : t.first.f) if (R.count(q.first)) return true; return false; }
inline void cancel(RF &r) {
  if (r.n.zero()) { r.d.clear(); return; }
  for (auto it = r.d.begin(); it != r.d.end();) {
    const Poly &dp = dens().p[it->first]; Poly q;
    while (it->second > 0 && pdiv(r.n, dp, q)) { r.n = q; it->second--; }
    if (it->second == 0) it = r.d.erase(it); else ++it;
  }
}
inline RF mk(const Poly &n, const std::map<int, int> &d) { RF r; r.n = n; r.d = d; cancel(r); return r; }
inline Poly denPoly(const std::map<int, int> &d) { Poly r(mpq_class(1)); for (auto &p : d) for (int i = 0; i < p.second; i++) r = mul(r, dens().p[p.first]); return r; }
inline RF addsub(const RF &a, const RF &b, bool sub) {
  if (a.d == b.d) { return mk(sub ? a.n - b.n : a.n + b.n, a.d); }
  std::map<int, int> l = a.d; for (auto &p : b.d) l[p.first] = std::max(l.count(p.first) ? l[p.first] : 0, p.second);
  auto lift = [&](const RF &x) { std::map<int, int> m; for (auto &p : l) { auto it = x.d.find(p.first); int e = p.second - (it == x.d.end() ? 0 : it->second); if (e > 0) m[p.first] = e; } return m.empty() ? x.n : mul(x.n, denPoly(m)); };
  Poly x = lift(a), y = lift(b);
  return mk(sub ? x - y : x + y, l);
}
inline RF mulRF(const RF &a, const RF &b) {
  if (a.n.zero() || b.n.zero()) return RF();
  // cross-cancel first to keep polynomials small
  RF x; x.n = a.n; x.d = b.d; cancel(x); RF y; y.n = b.n; y.d = a.d; cancel(y);
  std::map<int, int> l = x.d; for (auto &p : y.d) l[p.first] += p.second;
  return mk(mul(x.n, y.n), l);
}
inline RF neg(const RF &a) { RF r = a; r.n = scale(a.n, -1); return r; }
// split a nonzero polynomial into constant * product of registered / new den factors
inline mpq_class factorDen(Poly p, std::map<int, int> &f) {
  // monomial content
  if (!p.isConst()) {
    std::map<Var, uint32_t> mn; bool first = true;
    for (auto &t : p.t) {
      std::map<Var, uint32_t> cur; for (auto &q : t.first.f) cur[q.first] = q.second;
      if (first) { mn = cur; first = false; }
      else for (auto it = mn.begin(); it != mn.end();) { auto c = cur.find(it->first); if (c == cur.end()) it = mn.erase(it); else { it->second = std::min(it->second, c->second); ++it; } }
    }
    if (!mn.empty()) {
      Mono m; for (auto &q : mn) { m.f.push_back({q.first, q.second}); f[denId(Poly::var(q.first))] += q.second; }
      Poly r; for (auto &t : p.t) { Mono x; mdiv(t.first, m, x); r.t.emplace(x, t.second); } p = r;
    }
    for (size_t i = 0; i < dens().p.size() && !p.isConst(); i++) {
      const Poly &d = dens().p[i]; if (d.t.size() < 2) continue; Poly q;
      while (!p.isConst() && pdiv(p, d, q)) { f[i]++; p = q; }
    }
  }
  mpq_class c = p.zero() ? mpq_class(0) : p.lc();
  if (!p.isConst()) { Poly m = scale(p, 1 / c); Poly s; if (psqrt(m, s) && !s.isConst()) { mpq_class k = factorDen(s, f); /* squared */ std::map<int,int> g; (void)k; mpq_class k2 = factorDen(s, f); return c * k * k2; } f[denId(m)]++; }
  return c;
}
inline RF inv(const RF &b) { // 1/b, b.n nonzero
  std::map<int, int> f; mpq_class c = factorDen(b.n, f);
  RF r; r.n = scale(denPoly(b.d), 1 / c); r.d = f; cancel(r); return r;
}
inline RF divRF(const RF &a, const RF &b) { return mulRF(a, inv(b)); }

// double -> rational; doubles that are the nearest double (within 1ulp) of a small rational are read as that rational
inline mpq_class toQ(double d, bool snap = true) {
  mpq_class ex(d);
  if (!snap || d == 0) return ex;
  if (mpz_sizeinbase(ex.get_den().get_mpz_t(), 2) <= 21) return ex;
  double x = std::fabs(d); if (x > 1e7 || x < 1e-7) return ex;
  mpq_class v = abs(ex), r = v; mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  mpq_class tol = v * mpq_class(1, mpz_class(1) << 51);
  for (int i = 0; i < 40; i++) {
    mpz_class a = r.get_num() / r.get_den();
    mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
    if (q2 > 400000) break;
    mpq_class c(p2, q2); c.canonicalize();
    if (abs(c - v) <= tol) return d < 0 ? mpq_class(-c) : c;
    p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    mpq_class fr = r - a; if (fr == 0) break; r = 1 / fr;
  }
  return ex;
}
} // namespace cas
