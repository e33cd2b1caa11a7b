// C17: sparse polynomial algebra, univariate polynomials and Thiele interpolation - complete small spaces.
#include "vk.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/Poly.hpp"
#include "firefly/FFThieleInterpolator.hpp"
#include "firefly/ReconstHelper.hpp"
#include <algorithm>
using namespace firefly;
typedef unsigned long u; typedef std::vector<uint32_t> Deg; typedef std::map<Deg, u> Ref;
static u P;
static u mulm(u a, u b) { return (u)((unsigned __int128)a * b % P); }
static u addm(u a, u b) { return (u)(((unsigned __int128)a + b) % P); }
static u powm(u a, u e) { u r = 1 % P; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static u inv(u a) { return powm(a, P - 2); }
static u ev(const Ref& r, const std::vector<u>& x) { u s = 0; for (auto& t : r) { u m = t.second; for (size_t i = 0; i < t.first.size(); ++i) m = mulm(m, powm(x[i], t.first[i])); s = addm(s, m); } return s; }
static std::string str(const Ref& r) { std::string s; for (auto& t : r) { s += "+" + std::to_string(t.second) + "*z("; for (auto d : t.first) s += std::to_string(d) + ","; s += ")"; } return s.empty() ? "0" : s; }
static PolynomialFF mk(const Ref& r, uint32_t n) { ff_map m; for (auto& t : r) if (t.second) m.emplace(std::make_pair(t.first, FFInt(t.second))); return PolynomialFF(n, m); }
static Ref ref(const PolynomialFF& p) { Ref r; for (auto& t : p.coefs) if (t.second.n) r[t.first] = t.second.n; return r; }
static Ref norm(const Ref& r) { Ref o; for (auto& t : r) if (t.second % P) o[t.first] = t.second % P; return o; }
static Ref radd(const Ref& a, const Ref& b, u c) { Ref r = a; for (auto& t : b) r[t.first] = addm(r.count(t.first) ? r[t.first] : 0, mulm(c, t.second)); return norm(r); }
static Ref rmul(const Ref& a, const Ref& b) { Ref r; for (auto& s : a) for (auto& t : b) { Deg d = s.first; for (size_t i = 0; i < d.size(); ++i) d[i] += t.first[i]; r[d] = addm(r.count(d) ? r[d] : 0, mulm(s.second, t.second)); } return norm(r); }
static Ref rscale(const Ref& a, u c) { Ref r; for (auto& t : a) r[t.first] = mulm(t.second, c); return norm(r); }
static std::vector<std::vector<u>> pts;
// compares terms and the result's own evaluation (n variables) with the reference
static void chk(const char* op, const PolynomialFF& got, const Ref& want, uint32_t n, const std::string& in) {
  vk::eval();
  if (ref(got) != want) { vk::violation(op, std::string(op) + "(" + in + ") = " + str(ref(got)) + " expected " + str(want)); return; }
  if (got.n != n) { vk::violation(std::string(op) + "_n", std::string(op) + "(" + in + "): number of variables " + std::to_string(got.n)); return; }
  std::vector<FFInt> x(n); const auto& q = pts[vk::st().counts["evaluations"] % pts.size()];
  std::vector<u> y(q.begin(), q.begin() + n); for (uint32_t i = 0; i < n; ++i) x[i] = FFInt(y[i]);
  FFInt v = got.calc(x); if (v.n != ev(want, y)) vk::violation("calc", std::string("calc of ") + op + "(" + in + ")");
}
static std::vector<Ref> family(const std::vector<Deg>& ms, const std::vector<u>& cs) {
  std::vector<Ref> r; u tot = 1; for (size_t i = 0; i < ms.size(); ++i) tot *= cs.size();
  for (u c = 0; c < tot; ++c) { Ref f; u t = c; for (auto& m : ms) { u k = cs[t % cs.size()]; t /= cs.size(); if (k) f[m] = k; } r.push_back(f); } return r;
}
static void pairs(u prime, uint32_t n, const std::vector<Deg>& ms, const std::vector<u>& cs, const std::vector<std::vector<u>>& shifts) {
  P = prime; FFInt::set_new_prime(prime);
  auto fam = family(ms, cs);
  for (auto& fa : fam) {
    if (!vk::mine()) continue;
    PolynomialFF a = mk(fa, n); std::string in = "p=" + std::to_string(prime) + " " + str(fa); vk::cur("poly " + in);
    for (auto& fb : fam) {
      PolynomialFF b = mk(fb, n); std::string i2; if (vk::st().keys.size() < 60) i2 = in + " ; " + str(fb);
      chk("add", a + b, radd(fa, fb, 1), n, i2); chk("sub", a - b, radd(fa, fb, P - 1), n, i2); chk("mul", a * b, rmul(fa, fb), n, i2);
      { PolynomialFF c = a; c += b; chk("add_assign", c, radd(fa, fb, 1), n, i2); }
      { PolynomialFF c = a; c -= b; chk("sub_assign", c, radd(fa, fb, P - 1), n, i2); }
      vk::eval(); if (ref(a) != fa || ref(b) != fb) vk::violation("operand_changed", i2);
      vk::nontrivial();
    }
    { PolynomialFF c = a; c += c; }
    for (u k : cs) {
      chk("scale", a * FFInt(k), rscale(fa, k), n, in); { PolynomialFF c = a; c *= FFInt(k); chk("scale_assign", c, rscale(fa, k), n, in); }
      if (k) { chk("div", a / FFInt(k), rscale(fa, inv(k)), n, in); { PolynomialFF c = a; c /= FFInt(k); chk("div_assign", c, rscale(fa, inv(k)), n, in); } }
    }
    for (uint32_t z = 1; z <= n; ++z) { Ref m; for (auto& t : fa) { Deg d = t.first; ++d[z - 1]; m[d] = t.second; } chk("mul_zi", a.mul(z), m, n, in + " z" + std::to_string(z)); }
    // homogenisation
    uint32_t md = 0, mi = ~0u; for (auto& t : fa) { uint32_t s = 0; for (auto d : t.first) s += d; md = std::max(md, s); mi = std::min(mi, s); }
    for (uint32_t deg = md; deg < md + 3; ++deg) { Ref h; for (auto& t : fa) { uint32_t s = 0; for (auto d : t.first) s += d; Deg d = t.first; d.insert(d.begin(), deg - s); h[d] = t.second; }
      PolynomialFF c = a; PolynomialFF r = c.homogenize(deg); chk("homogenize", r, h, n + 1, in + " deg " + std::to_string(deg)); chk("homogenize_self", c, h, n + 1, in);
      // setting the new variable to one gives back the polynomial
      for (size_t k = 0; k < 3; ++k) { std::vector<u> y(pts[k].begin(), pts[k].begin() + n); std::vector<FFInt> x; for (auto q : y) x.emplace_back(FFInt(q)); vk::eval(); if (c.calc_n_m_1(x).n != ev(fa, y)) vk::violation("homogenize_eval", in); } }
    if (!fa.empty()) { PolynomialFF c = a; auto sum = [](const Deg& d) { uint32_t s = 0; for (auto x : d) s += x; return s; }; vk::eval(2);
      auto M = c.max_deg(), m = c.min_deg(); if (!fa.count(M) || sum(M) != md) vk::violation("max_deg", in); if (!fa.count(m) || sum(m) != mi) vk::violation("min_deg", in); }
    vk::eval(); if (a.zero() != fa.empty()) vk::violation("zero", in);
    { PolynomialFF c = a; for (auto& m : ms) if (!fa.count(m)) c.coefs[m] = FFInt(0); c.remove_zero_coefs(); vk::eval(); if (c.coefs.size() != fa.size()) vk::violation("remove_zero_coefs", in); chk("remove_zero", c, fa, n, in); }
    // shifts: f(x + s)
    for (auto& s : shifts) { std::vector<FFInt> sh; for (uint32_t i = 0; i < n; ++i) sh.emplace_back(FFInt(s[i])); PolynomialFF r = a.add_shift(sh); vk::nontrivial();
      for (auto& q : pts) { std::vector<u> y(q.begin(), q.begin() + n), ys = y; for (uint32_t i = 0; i < n; ++i) ys[i] = addm(y[i], s[i]); vk::eval();
        if (ev(ref(r), y) != ev(fa, ys)) { vk::violation("add_shift", "add_shift(" + in + ", shift " + std::to_string(s[0]) + "," + (n > 1 ? std::to_string(s[1]) : "") + ") = " + str(ref(r))); break; } } }
    // evaluation at all points, f(1, x)
    for (auto& q : pts) { std::vector<u> y(q.begin(), q.begin() + n); std::vector<FFInt> x; for (auto k : y) x.emplace_back(FFInt(k)); vk::eval(2); if (a.calc(x).n != ev(fa, y)) vk::violation("calc", in);
      if (n > 1) { std::vector<u> y1 = y; y1[0] = 1; std::vector<FFInt> x1(x.begin() + 1, x.end()); PolynomialFF c = a; if (c.calc_n_m_1(x1).n != ev(fa, y1)) vk::violation("calc_n_m_1", in); } }
  }
  vk::sample("all ordered pairs of " + std::to_string(fam.size()) + " polynomials in " + std::to_string(n) + " variables mod " + std::to_string(prime), 3);
}
// Histories of in-place operations on polynomials around the 50-term threshold with evaluations in between.
static void histories(u prime, int depth) {
  P = prime; FFInt::set_new_prime(prime);
  auto box = [&](uint32_t e, uint32_t homdeg, u seed) { Ref r; for (uint32_t i = 0; i < e; ++i) for (uint32_t j = 0; j < e; ++j) for (uint32_t k = 0; k < e; ++k) { u c = (seed * 1000003 + i * 7919 + j * 104729 + k * 1299709 + seed * seed * i * j) % P; if (c) r[{homdeg - i - j - k, i, j, k}] = c; } return r; };
  Ref big = box(4, 9, 3), small = box(2, 9, 5), mid = box(3, 9, 1); Ref rest = radd(big, small, P - 1);
  struct Op { const char* n; std::function<void(PolynomialFF&, Ref&)> f; };
  Ref one; one[{9, 0, 0, 0}] = 1 % P; Ref xs; xs[{0, 3, 3, 3}] = 2; 
  auto ad = [&](const Ref& o) { return [o](PolynomialFF& p, Ref& r) { p += mk(o, 4); r = radd(r, o, 1); }; };
  auto sb = [&](const Ref& o) { return [o](PolynomialFF& p, Ref& r) { p -= mk(o, 4); r = radd(r, o, P - 1); }; };
  std::vector<Op> ops {{"+big", ad(big)}, {"-big", sb(big)}, {"+small", ad(small)}, {"-rest", sb(rest)}, {"+mid", ad(mid)}, {"*3", [](PolynomialFF& p, Ref& r) { p *= FFInt(3); r = rscale(r, 3); }}, {"/5", [](PolynomialFF& p, Ref& r) { p /= FFInt(5); r = rscale(r, inv(5)); }}, {"+1", ad(one)}, {"copy", [](PolynomialFF& p, Ref&) { PolynomialFF q(p); p = PolynomialFF(); p = q; }}, {"=a+b", [mid](PolynomialFF& p, Ref& r) { p = p + mk(mid, 4); r = radd(r, mid, 1); }}, {"+x", ad(xs)}};
  u tot = 1; for (int i = 0; i < depth; ++i) tot *= ops.size();
  std::vector<std::vector<u>> xs3 {{0, 0, 0}, {1, 2, 3}, {P - 1, P / 2, 5}};
  for (int start = 0; start < 3; ++start) for (u c = 0; c < tot; ++c) {
    if (!vk::mine()) continue;
    Ref r = start == 0 ? Ref() : start == 1 ? big : small; PolynomialFF p = mk(r, 4); p.n = 4;
    u t = c; std::string h = "start" + std::to_string(start);
    for (int d = 0; d <= depth; ++d) {
      for (auto& x : xs3) { std::vector<u> y {1}; y.insert(y.end(), x.begin(), x.end()); std::vector<FFInt> xx; for (auto q : x) xx.emplace_back(FFInt(q)); vk::eval();
        if (p.calc_n_m_1(xx).n != ev(r, y)) { vk::violation("calc_history", "calc_n_m_1 wrong after " + h + " mod " + std::to_string(P)); d = depth; break; } }
      if (d >= depth) break;
      auto& o = ops[t % ops.size()]; t /= ops.size(); h += std::string(" ") + o.n; vk::cur(h); o.f(p, r);
      vk::eval(); if (ref(p) != r) { vk::violation("history", "terms wrong after " + h); break; }
    }
    vk::nontrivial();
  }
}
// ---- univariate polynomials
static std::vector<u> trimv(std::vector<u> v) { while (!v.empty() && !v.back()) v.pop_back(); return v; }
static std::vector<u> val(const Poly& p) { std::vector<u> v; for (auto& c : p.coeff) v.push_back(c.n); return trimv(v); }
static std::string vs(const std::vector<u>& v) { std::string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }
static Poly mp(const std::vector<u>& v) { std::vector<FFInt> c; for (auto x : v) c.emplace_back(FFInt(x)); return Poly(c); }
static std::vector<u> vmul(const std::vector<u>& a, const std::vector<u>& b) { std::vector<u> r(a.size() + b.size(), 0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] = addm(r[i + j], mulm(a[i], b[j])); return trimv(r); }
static std::vector<u> vadd(std::vector<u> a, std::vector<u> b, u c) { a.resize(std::max(a.size(), b.size())); for (size_t i = 0; i < b.size(); ++i) a[i] = addm(a[i], mulm(c, b[i])); return trimv(a); }
static std::vector<u> vmod(std::vector<u> a, const std::vector<u>& b) { a = trimv(a); while (a.size() >= b.size() && !a.empty()) { u q = mulm(a.back(), inv(b.back())); size_t o = a.size() - b.size(); for (size_t i = 0; i < b.size(); ++i) a[o + i] = addm(a[o + i], P - mulm(q, b[i])); a = trimv(a); } return a; }
static void univariate(u prime, int da, int db) {
  P = prime; FFInt::set_new_prime(prime);
  auto all = [&](int d) { std::vector<std::vector<u>> r; u tot = 1; for (int i = 0; i <= d; ++i) tot *= P; for (u c = 0; c < tot; ++c) { std::vector<u> v; u t = c; for (int i = 0; i <= d; ++i) { v.push_back(t % P); t /= P; } v = trimv(v); if (v.empty()) v = {0}; if (v.size() == (size_t)1 || c >= tot / P || true) r.push_back(v); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; };
  auto A = all(da), Bv = all(db);
  for (auto& a : A) {
    if (!vk::mine()) continue;
    vk::cur("Poly p=" + std::to_string(P) + " " + vs(a));
    std::vector<u> ta = trimv(a);
    for (auto& b : Bv) {
      std::vector<u> tb = trimv(b); std::string in = "p=" + std::to_string(P) + " " + vs(a) + vs(b); vk::nontrivial();
      auto e = [&](const char* k, const Poly& g, const std::vector<u>& w) { vk::eval(); if (val(g) != w) vk::violation(std::string("poly_") + k, std::string(k) + " " + in + " = " + vs(val(g)) + " expected " + vs(w)); };
      e("add", mp(a) + mp(b), vadd(ta, tb, 1)); e("sub", mp(a) - mp(b), vadd(ta, tb, P - 1)); e("mul", mp(a) * mp(b), vmul(ta, tb));
      if (tb.empty() || ta.empty()) continue;
      auto qr = fast_euclidean_division(mp(a), mp(b)); vk::eval();
      std::vector<u> q = val(qr.first), r = val(qr.second);
      if (vadd(vmul(q, tb), r, 1) != ta || (r.size() >= tb.size())) vk::violation("poly_division", in + " q=" + vs(q) + " r=" + vs(r));
      e("div", mp(a) / mp(b), q); e("mod", mp(a) % mp(b), vmod(ta, tb));
      std::vector<u> g = val(gcd(mp(a), mp(b))), x = ta, y = tb; while (!y.empty()) { auto z = vmod(x, y); x = y; y = z; }
      vk::eval(); for (auto& k : x) (void)k; if (g.size() != x.size()) vk::violation("poly_gcd", in + " gcd=" + vs(g) + " expected degree of " + vs(x)); else { u c = mulm(x.back(), inv(g.back())); for (size_t i = 0; i < g.size(); ++i) if (mulm(g[i], c) != x[i]) { vk::violation("poly_gcd", in + " gcd=" + vs(g)); break; } }
    }
    for (u k = 0; k < P; ++k) { vk::eval(2); std::vector<u> w; for (auto x : ta) w.push_back(mulm(x, k)); if (val(mp(a) * FFInt(k)) != trimv(w)) vk::violation("poly_scale", vs(a)); if (k) { std::vector<u> w2; for (auto x : ta) w2.push_back(mulm(x, inv(k))); if (val(mp(a) / FFInt(k)) != trimv(w2)) vk::violation("poly_scalediv", vs(a)); } }
    vk::eval(); if (mp(a).get_deg() != (ta.empty() ? 0 : ta.size() - 1)) vk::violation("poly_deg", vs(a));
  }
  // roots of every product of distinct linear factors
  for (u mask = 1; mask < (1UL << P); ++mask) { if (__builtin_popcountl(mask) > 4 || !vk::mine()) continue; for (u lead : {1UL, P - 1}) { std::vector<u> v {lead}; std::vector<u> want; for (u r = 0; r < P; ++r) if (mask >> r & 1) { v = vmul(v, {(P - r) % P, 1}); want.push_back(r); }
    vk::cur("roots p=" + std::to_string(P) + " " + vs(v)); vk::eval(); vk::nontrivial(); std::vector<u> got; for (auto& x : mp(v).roots()) got.push_back(x.n); std::sort(got.begin(), got.end()); if (got != want) vk::violation("poly_roots", "roots of " + vs(v) + " mod " + std::to_string(P) + " = " + vs(got)); } }
}
// ---- Thiele: oracle keeps track of inverse differences; cases with a vanishing one are not in general position
static void thiele_one(const std::vector<u>& num, const std::vector<u>& den, const std::vector<u>& ts, bool expect_equal) {
  auto f = [&](u t, bool& ok) { u a = 0, b = 0; for (size_t i = num.size(); i--;) a = addm(mulm(a, t), num[i]); for (size_t i = den.size(); i--;) b = addm(mulm(b, t), den[i]); ok = b != 0; return ok ? mulm(a, inv(b)) : 0; };
  ThieleInterpolator th; std::vector<std::pair<u, u>> fed; bool stop = false, general = true; std::vector<u> ai;
  for (u t : ts) {
    bool ok; u y = f(t, ok); if (!ok) continue;
    // inverse differences of the new point against the existing ones
    u res = y; bool cons = false;
    for (size_t i = 0; i < ai.size(); ++i) { u d = addm(res, P - ai[i]); if (d == 0) { if (i + 1 == ai.size()) cons = true; else general = false; break; } res = mulm(addm(t, P - fed[i].first), inv(d)); }
    if (!general) { vk::count("thiele_degenerate"); return; }
    stop = th.add_point(FFInt(y), FFInt(t)); fed.push_back({t, y}); vk::eval();
    std::string in = "p=" + std::to_string(P) + " (" + vs(num) + ")/(" + vs(den) + ") after " + std::to_string(fed.size()) + " points";
    if (stop != cons) { vk::violation(cons ? "thiele_not_stopped" : "thiele_early_stop", in); return; }
    if (stop) break;
    ai.push_back(res);
  }
  if (!stop) { vk::count("thiele_unfinished"); if (expect_equal) vk::violation("thiele_unfinished", "no termination for (" + vs(num) + ")/(" + vs(den) + ")"); return; }
  auto r = th.get_result(); vk::nontrivial();
  auto ev1 = [&](const ff_map& m, u t) { u s = 0; for (auto& c : m) s = addm(s, mulm(c.second.n, powm(t, c.first[0]))); return s; };
  for (auto& p : fed) { u a = ev1(r.first, p.first), b = ev1(r.second, p.first); vk::eval(); if (b == 0 ? a != 0 : mulm(a, inv(b)) != p.second) { vk::violation("thiele_value", "result does not reproduce the fed values: p=" + std::to_string(P) + " (" + vs(num) + ")/(" + vs(den) + ")"); return; } if (b == 0) { vk::count("thiele_unattainable"); return; } }
  if (expect_equal) { std::vector<u> A(1), Bq(1); for (auto& c : r.first) { if (A.size() <= c.first[0]) A.resize(c.first[0] + 1); A[c.first[0]] = c.second.n; } for (auto& c : r.second) { if (Bq.size() <= c.first[0]) Bq.resize(c.first[0] + 1); Bq[c.first[0]] = c.second.n; }
    if (vmul(trimv(A), trimv(den)) != vmul(trimv(Bq), trimv(num)) || trimv(Bq).empty()) vk::violation("thiele_function", "wrong function for (" + vs(num) + ")/(" + vs(den) + "): (" + vs(A) + ")/(" + vs(Bq) + ")"); }
}
static void thiele() {
  // large prime, points in general position, all functions with small coefficients
  for (u prime : {(u)primes()[0], (u)primes()[99], 2147483647UL}) {
    P = prime; FFInt::set_new_prime(prime);
    std::vector<u> ts; u t = 1234567890123456789UL % P; for (int i = 0; i < 14; ++i) { ts.push_back(t); t = addm(mulm(t, 6364136223846793005UL % P), 1442695040888963407UL % P); }
    int D = vk::thorough() ? 3 : 2; std::vector<u> cs = vk::thorough() ? std::vector<u>{0, 1, P - 1, 2, P / 2} : std::vector<u>{0, 1, P - 1, P / 2}; u tot = 1; for (int i = 0; i <= D; ++i) tot *= cs.size();
    auto dec = [&](u c) { std::vector<u> v; for (int i = 0; i <= D; ++i) { v.push_back(cs[c % cs.size()]); c /= cs.size(); } return v; };
    for (u a = 0; a < tot; ++a) { if (!vk::mine()) continue; for (u b = 1; b < tot; ++b) { vk::cur("thiele " + vs(dec(a)) + "/" + vs(dec(b))); thiele_one(dec(a), dec(b), ts, true); } }
    // higher degrees, huge gaps
    for (int da : {0, 1, 3, 5}) for (int db : {0, 1, 3, 5}) { if (!vk::mine()) continue; std::vector<u> n(da + 1), d(db + 1); n[da] = 7; n[0] = addm(n[0], 1); d[db] = P / 3; d[0] = addm(d[0], 5); thiele_one(n, d, ts, true); }
  }
  // small fields: every function, every order of the points of several permutations
  for (u prime : vk::thorough() ? std::vector<u>{5, 7, 11} : std::vector<u>{5, 7}) {
    P = prime; FFInt::set_new_prime(prime); u tot = P * P * P;
    for (u a = 0; a < (P == 11 ? P * P : tot); ++a) { if (!vk::mine()) continue; for (u b = 1; b < (P == 11 ? P * P : tot); ++b) { std::vector<u> n {a % P, a / P % P, a / P / P}, d {b % P, b / P % P, b / P / P};
      for (u st = 1; st < P; ++st) { std::vector<u> ts; for (u i = 0; i < P; ++i) ts.push_back((1 + i * st) % P); thiele_one(n, d, ts, false); } } }
  }
}
int main(int argc, char** argv) {
  vk::init(argc, argv);
  bool th = vk::thorough(); u big = primes()[0];
  auto mkpts = [&](u p, int n, const std::vector<u>& al) { pts.clear(); u tot = 1; for (int i = 0; i < n; ++i) tot *= al.size(); for (u c = 0; c < tot; ++c) { std::vector<u> v; u t = c; for (int i = 0; i < n; ++i) { v.push_back(al[t % al.size()] % p); t /= al.size(); } pts.push_back(v); } };
  mkpts(7, 3, {0, 1, 3, 6, 2}); pairs(7, 2, {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}}, {0, 1, 6}, {{0, 0}, {1, 0}, {0, 3}, {6, 2}});
  mkpts(big, 4, {0, 1, big - 1, big / 2}); pairs(big, 3, {{0, 0, 0}, {1, 0, 0}, {0, 1, 1}, {0, 0, 2}, {3, 2, 0}}, {0, 1, big - 1}, {{0, 0, 0}, {1, 0, 5}, {big - 1, 2, 0}, {big / 2, 3, big / 3}});
  mkpts(11, 2, {0, 1, 3, 10, 5, 7}); pairs(11, 1, {{0}, {1}, {2}, {3}, {7}}, th ? std::vector<u>{0, 1, 4, 10} : std::vector<u>{0, 1, 10}, {{0}, {1}, {2}, {10}});
  histories(big, th ? 5 : 4); histories(101, 3);
  univariate(3, th ? 4 : 3, 3); univariate(5, 3, th ? 3 : 2); univariate(7, 2, 2);
  thiele();
  vk::finish();
}
