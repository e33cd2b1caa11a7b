// Exact multivariate rational functions over the rationals (numerator and denominator with integer coefficients) and a parser
// for printed expressions; independent of FireFly's own containers.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace ex {
  typedef std::vector<uint32_t> Deg;
  struct Poly {
    std::map<Deg, mpz_class> c; 
    void add(const Deg& d, const mpz_class& v) { mpz_class& x = c[d]; x += v; if (x == 0) c.erase(d); }
    bool zero() const { return c.empty(); }
  };
  inline Poly operator+(const Poly& a, const Poly& b) { Poly r = a; for (auto& m : b.c) r.add(m.first, m.second); return r; }
  inline Poly neg(const Poly& a) { Poly r = a; for (auto& m : r.c) m.second = -m.second; return r; }
  inline Poly operator*(const Poly& a, const Poly& b) { Poly r; for (auto& m : a.c) for (auto& k : b.c) { Deg d = m.first; for (size_t i = 0; i < d.size(); ++i) d[i] += k.first[i]; r.add(d, m.second * k.second); } return r; }
  inline Poly scal(const Poly& a, const mpz_class& s) { Poly r; if (s != 0) for (auto& m : a.c) r.c[m.first] = m.second * s; return r; }
  inline bool operator==(const Poly& a, const Poly& b) { return a.c == b.c; }
  inline Poly constant(int n, const mpz_class& v) { Poly r; r.add(Deg(n, 0), v); return r; }
  inline bool is_const(const Poly& a) { if (a.c.size() > 1) return false; if (a.c.empty()) return true; for (auto d : a.c.begin()->first) if (d) return false; return true; }
  inline mpz_class cval(const Poly& a) { return a.c.empty() ? mpz_class(0) : a.c.begin()->second; }
  struct Rat { Poly n, d; };
  inline void tidy(Rat& r) { // integer content
    mpz_class g = 0; for (auto& m : r.n.c) g = gcd(g, m.second); for (auto& m : r.d.c) g = gcd(g, m.second); if (g > 1) { for (auto& m : r.n.c) m.second /= g; for (auto& m : r.d.c) m.second /= g; } }
  inline Rat mul(const Rat& a, const Rat& b) { Rat r {a.n * b.n, a.d * b.d}; tidy(r); return r; }
  inline Rat div(const Rat& a, const Rat& b) { if (b.n.zero()) throw std::runtime_error("division by zero"); Rat r {a.n * b.d, a.d * b.n}; tidy(r); return r; }
  inline Rat add(const Rat& a, const Rat& b) {
    if (is_const(a.d) && is_const(b.d)) { mpz_class x = cval(a.d), y = cval(b.d), l = lcm(x, y); Rat r {scal(a.n, l / x) + scal(b.n, l / y), {}}; Deg z; z = a.d.c.begin()->first; r.d.add(z, l); return r; }
    if (a.d == b.d) return Rat {a.n + b.n, a.d};
    Rat r {a.n * b.d + b.n * a.d, a.d * b.d}; tidy(r); return r; }
  inline bool equal(const Rat& a, const Rat& b) { return a.n * b.d == b.n * a.d; }
  // expr := [sign] term {(+|-) term}; term := factor {(*|/) factor}; factor := atom [^ exponent]
  struct Parser {
    const std::string& s; const std::vector<std::string>& v; int n; size_t i = 0;
    Parser(const std::string& s_, const std::vector<std::string>& v_) : s(s_), v(v_), n((int)v_.size()) {}
    void bad(const char* w) { throw std::runtime_error(std::string(w) + " at " + std::to_string(i) + " of " + s.substr(0, 300)); }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; }
    char pk() { ws(); return i < s.size() ? s[i] : 0; }
    Rat cst(const mpz_class& m) { return Rat {constant(n, m), constant(n, 1)}; }
    Rat atom() { char c = pk(); if (c == '(') { ++i; Rat r = expr(); if (pk() != ')') bad("missing )"); ++i; return r; }
      if (c >= '0' && c <= '9') { size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; return cst(mpz_class(s.substr(b, i - b))); }
      if (isalpha(c)) { size_t b = i; while (i < s.size() && (isalnum(s[i]) || s[i] == '_')) ++i; std::string nm = s.substr(b, i - b); for (int k = 0; k < n; ++k) if (v[k] == nm) { Rat r {{}, constant(n, 1)}; Deg d(n, 0); d[k] = 1; r.n.add(d, 1); return r; } bad("unknown variable"); }
      bad("unexpected character"); return Rat(); }
    Rat factor() { Rat b = atom(); if (pk() == '^') { ++i; bool par = false, ng = false; if (pk() == '(') { par = true; ++i; } if (pk() == '-') { ng = true; ++i; } ws(); size_t q = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; if (q == i) bad("exponent"); long e = std::stol(s.substr(q, i - q)); if (par) { if (pk() != ')') bad("exponent )"); ++i; } Rat r = cst(1); for (long k = 0; k < e; ++k) r = mul(r, b); return ng ? div(cst(1), r) : r; } return b; }
    Rat term() { Rat r = factor(); for (;;) { char c = pk(); if (c == '*') { ++i; r = mul(r, factor()); } else if (c == '/') { ++i; r = div(r, factor()); } else return r; } }
    Rat expr() { bool ng = false; if (pk() == '-' || pk() == '+') { ng = s[i] == '-'; ++i; } Rat r = term(); if (ng) r.n = neg(r.n); for (;;) { char c = pk(); if (c == '+' || c == '-') { ++i; Rat t = term(); if (c == '-') t.n = neg(t.n); r = add(r, t); } else return r; } }
    Rat run() { Rat r = expr(); if (pk()) bad("trailing text"); return r; }
  };
  inline Rat parse(const std::string& s, const std::vector<std::string>& v) { return Parser(s, v).run(); }
  // ---- coprimality on fixed generic lines modulo a large prime (one-sided: false means a common factor)
  static const uint64_t P61 = 1783456219870654279ull; // no relation to the primes of FireFly (which are close to 2^63)
  inline uint64_t& P() { static uint64_t p = P61; return p; } // modulus of the functions below
  inline uint64_t mm(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % P()); }
  inline uint64_t pw(uint64_t a, uint64_t e) { uint64_t r = 1; while (e) { if (e & 1) r = mm(r, a); a = mm(a, a); e >>= 1; } return r; }
  typedef std::vector<uint64_t> U;
  inline U umul(const U& a, const U& b) { if (a.empty() || b.empty()) return {}; U r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] = (uint64_t)(((unsigned __int128)r[i + j] + mm(a[i], b[j])) % P()); return r; }
  inline U line(const Poly& p, int n) { U r; for (auto& m : p.c) { mpz_class q = m.second % mpz_class(std::to_string(P())); if (q < 0) q += mpz_class(std::to_string(P())); U t {(uint64_t)q.get_ui()}; for (int i = 0; i < n; ++i) for (uint32_t k = 0; k < m.first[i]; ++k) t = umul(t, U {pw(31 + i, 1000 + i), pw(57 + i, 777 + 3 * i)}); if (r.size() < t.size()) r.resize(t.size(), 0); for (size_t k = 0; k < t.size(); ++k) r[k] = (uint64_t)(((unsigned __int128)r[k] + t[k]) % P()); } while (!r.empty() && !r.back()) r.pop_back(); return r; }
  inline U urem(U a, const U& b) { uint64_t iv = pw(b.back(), P() - 2); while (a.size() >= b.size()) { uint64_t q = mm(a.back(), iv); size_t o = a.size() - b.size(); for (size_t k = 0; k < b.size(); ++k) a[o + k] = (uint64_t)(((unsigned __int128)a[o + k] + P() - mm(q, b[k])) % P()); while (!a.empty() && !a.back()) a.pop_back(); } return a; }
  inline bool coprime(const Poly& a, const Poly& b) { if (a.zero()) return is_const(b); int n = (int)a.c.begin()->first.size(); U x = line(a, n), y = line(b, n); while (!y.empty()) { U r = urem(x, y); x = y; y = r; } return x.size() <= 1; }
}
