// C16: every printed form of a function object denotes the function - all term/coefficient/factor/order patterns of a bounded family.
#include "vk.hpp"
#include "exprref.hpp"
#include "firefly/RationalFunction.hpp"
#include "firefly/RationalFunctionFF.hpp"
#include "firefly/HornerGenerator.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <algorithm>
#include <setjmp.h>
using namespace firefly;
typedef unsigned long u; typedef std::vector<uint32_t> Deg;
static jmp_buf jb; static bool armed = false;
extern "C" void exit(int c) { if (armed) longjmp(jb, 1); fflush(nullptr); _exit(c); }
static u P; static ref::F F;
struct Term { Deg d; mpz_class n, m; };
typedef std::vector<Term> Pol;
static u rn(const mpz_class& n, const mpz_class& m) { mpz_class p(std::to_string(P)), a = n % p, b = m % p; if (a < 0) a += p; return F.mul(a.get_ui(), F.inv(b.get_ui())); }
static u ev(const Pol& p, const std::vector<u>& x) { u s = 0; for (auto& t : p) { u m = rn(t.n, t.m); for (size_t i = 0; i < t.d.size(); ++i) m = F.mul(m, F.pow(x[i], t.d[i])); s = F.add(s, m); } return s; }
static Polynomial mk(const Pol& p) { rn_map m; for (auto& t : p) m.emplace(t.d, RationalNumber(t.n, t.m)); Polynomial r(m); if (vk::st().idx & 1) r.sort(); return r; }
static std::string ps(const Pol& p) { std::string s; for (auto& t : p) { s += "+" + t.n.get_str() + "/" + t.m.get_str() + "*("; for (auto d : t.d) s += std::to_string(d) + ","; s += ")"; } return s.empty() ? "0" : s; }
static const std::vector<u>& points(int n, int k) { static std::vector<u> v; v.clear(); u t = k * 7919 + 13; for (int i = 0; i < n; ++i) { if (k == 0) v.push_back(i + 2); else { t = t * 6364136223846793005UL + 1442695040888963407UL; v.push_back(t % P); } } return v; }
// Evaluates text at the point with both the independent evaluator and the library parser and compares with want.
static void text(const char* kind, const std::string& t, const std::vector<std::string>& names, const std::vector<u>& x, u want, const std::string& in, bool parser) {
  vk::eval();
  std::map<std::string, u> v; for (size_t i = 0; i < names.size(); ++i) v[names[i]] = x[i];
  try { ref::Eval e(t, v, P); u r = e.run(); if (r != want && !e.div0) { vk::violation(kind, std::string(kind) + " text \"" + t.substr(0, 300) + "\" of " + in + " has a different value"); return; } if (e.div0) { vk::count("skipped_pole"); return; } }
  catch (const ref::Bad& b) { vk::violation(std::string(kind) + "_invalid", std::string(kind) + " text \"" + t.substr(0, 300) + "\" of " + in + " is not a valid expression (" + b.what() + ")"); return; }
  if (!parser) return;
  vk::eval();
  static std::vector<FFInt> res, res2; res.clear(); res2.clear();
  static std::vector<FFInt> xs; xs.clear(); for (u a : x) xs.emplace_back(FFInt(a));
  if (setjmp(jb)) { armed = false; vk::violation(std::string(kind) + "_rejected", std::string(kind) + " text \"" + t.substr(0, 300) + "\" is rejected by the parser: " + in); return; }
  armed = true;
  { ShuntingYardParser* par = new ShuntingYardParser(std::vector<std::string>{t}, names); res = par->evaluate_pre(xs); delete par; }
  armed = false;
  if (res.size() != 1 || res[0].n != want) vk::violation(std::string(kind) + "_parser", std::string(kind) + " text \"" + t.substr(0, 300) + "\" of " + in + " evaluates differently in the parser");
}
static std::vector<std::vector<std::string>> namesets(int n) { if (n == 1) return {{"x"}, {"x10"}}; if (n == 2) return {{"x", "y"}, {"ab", "a"}}; return {{"x", "y", "z"}, {"z1", "z10", "z"}}; }
static uint64_t seq = 0;
static void poly_forms(const Pol& p, int n) {
  Polynomial po = mk(p);
  auto ns = namesets(n); auto& names = ns[seq++ % ns.size()];
  std::string in = ps(p); vk::cur("poly " + in); vk::nontrivial();
  for (int k = 0; k < 2; ++k) { auto x = points(n, k); u w = ev(p, x); text("Polynomial::to_string", po.to_string(names), names, x, w, in, k == 1); text("Polynomial::generate_horner", po.generate_horner(names), names, x, w, in, k == 1); }
  if (p.size()) {
    auto x = points(n, 1); u w = ev(p, x);
    rn_map m; for (auto& t : p) m.emplace(t.d, RationalNumber(t.n, t.m)); text("generate_horner_rn", generate_horner_rn(m, names), names, x, w, in, false);
    text("generate_horner_mon", generate_horner_mon(po.coefs, names), names, x, w, in, false);
    PolynomialFF pf = po.convert_to_PolynomialFF(); vk::eval(); std::vector<FFInt> xs; for (u a : x) xs.emplace_back(FFInt(a)); if (pf.calc(xs).n != w) vk::violation("convert_to_PolynomialFF", in);
    text("PolynomialFF::to_string", pf.to_string(names), names, x, w, in, true);
    if (!pf.coefs.empty()) text("generate_horner_ff", generate_horner_ff(pf.coefs, names), names, x, w, in, true);
    Polynomial neg = po; neg *= RationalNumber(-3, 7); text("scaled", neg.to_string(names), names, x, F.mul(w, rn(-3, 7)), in, false);
  }
}
struct Fac { Pol num, den; int pos; };
static RationalFunction mkf(const Fac& f) { Polynomial a, b; if (!f.num.empty()) { a = mk(f.num); a.set_var_pos(f.pos); } if (!f.den.empty()) { b = mk(f.den); b.set_var_pos(f.pos); } return RationalFunction(a, b); }
static void rf_forms(const Pol& nu, const Pol& de, const std::vector<Fac>& fs, const std::vector<uint32_t>& order, int n) {
  RationalFunction r(mk(nu), de.empty() ? Polynomial() : mk(de)); for (auto& f : fs) r.add_factor(mkf(f));
  if (!order.empty()) { std::unordered_map<uint32_t, uint32_t> m; for (uint32_t i = 0; i < order.size(); ++i) m.emplace(i, order[i]); r.set_var_order(m); }
  auto ns = namesets(n); auto& names = ns[seq++ % ns.size()];
  std::string in = "(" + ps(nu) + ")/(" + ps(de) + ")"; for (auto& f : fs) in += " factor in variable " + std::to_string(f.pos) + " (" + ps(f.num) + ")/(" + ps(f.den) + ")"; in += " order"; for (auto o : order) in += std::to_string(o);
  vk::cur(in); vk::nontrivial();
  vk::eval(); if (r.zero() != (nu.empty() || (nu.size() == 1 && nu[0].n == 0))) vk::violation("zero", in);
  auto x = points(n, 1); std::vector<u> xo = x; for (size_t i = 0; i < order.size(); ++i) xo[i] = x[order[i]];
  u a = ev(nu, xo), b = de.empty() ? 1 : ev(de, xo);
  for (auto& f : fs) { if (!f.num.empty()) a = F.mul(a, ev(f.num, {x[f.pos]})); if (!f.den.empty()) b = F.mul(b, ev(f.den, {x[f.pos]})); }
  u w = F.mul(a, F.inv(b));
  bool parser = seq % 3 == 0;
  text("RationalFunction::to_string", r.to_string(names), names, x, w, in, parser); text("RationalFunction::generate_horner", r.generate_horner(names), names, x, w, in, parser);
  if (fs.empty() && order.empty() && !nu.empty()) {
    RationalFunctionFF rf(mk(nu).convert_to_PolynomialFF(), de.empty() ? PolynomialFF() : mk(de).convert_to_PolynomialFF());
    text("RationalFunctionFF::to_string", rf.to_string(names), names, x, w, in, parser);
  }
  // a function used as factor keeps its text when copied
  RationalFunction c(r); vk::eval(); if (c.to_string(names) != r.to_string(names)) vk::violation("copy", in);
}
int main(int argc, char** argv) {
  vk::init(argc, argv); bool th = vk::thorough();
  { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
  P = primes()[0]; F.p = P; FFInt::set_new_prime(P);
  mpz_class huge("123456789012345678901234567890123456789"), hd("98765432109876543210987654321");
  std::vector<std::pair<mpz_class, mpz_class>> cs {{1, 1}, {-1, 1}, {2, 1}, {-3, 1}, {2, 3}, {-5, 7}, {huge, 1}, {-huge, hd}, {1, 9}, {mpz_class(std::to_string(P - 1)), 1}};
  auto gen = [&](const std::vector<Deg>& ms, size_t maxt, const std::function<void(const Pol&)>& fn, const std::vector<int>& al) {
    u tot = 1; for (size_t i = 0; i < ms.size(); ++i) tot *= al.size() + 1;
    for (u c = 0; c < tot; ++c) { Pol p; u t = c; for (auto& m : ms) { u k = t % (al.size() + 1); t /= al.size() + 1; if (k) p.push_back({m, cs[al[k - 1]].first, cs[al[k - 1]].second}); } if (p.size() <= maxt) fn(p); } };
  std::vector<int> full {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, few {0, 1, 4, 5};
  auto pf = [&](int n) { return [n](const Pol& p) { if (vk::mine()) poly_forms(p, n); }; };
  gen({{0}, {1}, {2}, {5}}, 4, pf(1), th ? full : std::vector<int>{0, 1, 3, 4, 5, 7});
  gen({{0, 0}, {1, 0}, {0, 1}, {1, 2}, {3, 0}, {3, 4}}, th ? 4 : 3, pf(2), th ? full : std::vector<int>{0, 1, 2, 4, 5, 6});
  gen({{0, 0, 0}, {1, 0, 0}, {0, 0, 1}, {1, 1, 1}, {0, 2, 0}, {2, 0, 3}, {0, 1, 4}}, th ? 5 : 4, pf(3), few);
  // full boxes: dense polynomials
  for (uint32_t e1 = 0; e1 < 5; ++e1) for (uint32_t e2 = 0; e2 < 4; ++e2) for (int s = 0; s < 10; ++s) if (vk::mine()) { Pol p; int k = s; for (uint32_t i = 0; i <= e1; ++i) for (uint32_t j = 0; j <= e2; ++j) { auto& c = cs[k++ % cs.size()]; p.push_back({{i, j}, c.first, c.second}); } poly_forms(p, 2); }
  // zero-coefficient representations of zero
  poly_forms({{{0, 0}, 0, 1}}, 2); poly_forms({{{0}, 0, 1}}, 1);
  // rational functions, factors, variable orders
  std::vector<Pol> nus, fac; gen({{0, 0}, {1, 0}, {0, 2}, {1, 1}}, 3, [&](const Pol& p) { nus.push_back(p); }, {0, 1, 5}); nus.push_back({{{0, 0}, 0, 1}});
  for (auto& a : nus) for (auto& b : nus) if (vk::mine()) { if (ps(b) == "0" || b[0].n == 0) { if (b.empty()) rf_forms(a, {}, {}, {}, 2); continue; } rf_forms(a, b, {}, {}, 2); }
  gen({{0}, {1}, {3}}, 3, [&](const Pol& p) { fac.push_back(p); }, {0, 5});
  std::vector<Pol> small {{}, {{{0, 0, 0}, 1, 1}}, {{{0, 0, 0}, -2, 3}}, {{{1, 0, 2}, -1, 1}, {{0, 1, 0}, 3, 5}}, {{{0, 0, 1}, 1, 1}, {{0, 0, 0}, -1, 1}}};
  std::vector<std::vector<uint32_t>> orders {{}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto& a : small) for (auto& b : small) for (auto& o : orders) {
    if (vk::mine()) rf_forms(a, b, {}, o, 3);
    for (size_t i = 0; i < fac.size(); i += th ? 1 : 2) for (size_t j = 0; j < fac.size(); j += th ? 1 : 3) for (int pos = 0; pos < 3; ++pos) if (vk::mine()) {
      std::vector<Fac> fs {{fac[i], fac[j], pos}}; rf_forms(a, b, fs, o, 3);
      if ((i + j + pos) % 3 == 0) { fs.push_back({fac[(i + 3) % fac.size()], fac[(j + 5) % fac.size()], (pos + 1) % 3}); rf_forms(a, b, fs, o, 3); fs.push_back({fac[(i + 1) % fac.size()], {}, pos}); rf_forms(a, b, fs, o, 3); }
    } }
  vk::sample("all polynomials with up to 3-4 terms from 4-7 monomials and 4-10 coefficients in 1-3 variables");
  vk::sample("all quotients, single and multiple univariate factors in every variable position, all variable orders of 3 variables");
  vk::finish();
}
