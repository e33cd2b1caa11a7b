// C18: coefficients that vanish or coincide modulo the leading primes; safe interpolation must still end with the exact functions.
#include "recon.hpp"
#include "firefly/ReconstHelper.hpp"
typedef std::vector<std::string> V;
static V values(const std::string& c, bool T) { // c, and numbers congruent to 0 / 1 / c modulo leading primes
  std::string p0 = std::to_string(firefly::primes()[0]), p1 = std::to_string(firefly::primes()[1]), p2 = std::to_string(firefly::primes()[2]);
  V r = {c, p0, "(" + p0 + "+1)", "(" + p1 + ")", "((" + c + ")+" + p0 + ")"};
  if (T) { r.push_back("(" + p1 + "*" + p2 + "+(" + c + "))"); r.push_back("(" + p0 + "/(" + p1 + "+2))"); }
  if (vk::thorough()) { r.push_back("(" + p2 + "+1)"); r.push_back("((" + c + ")/(" + p1 + "*" + p2 + "+1))"); r.push_back("(" + p1 + "*3)"); }
  return r; }
static ex::Poly red(const ex::Poly& a, uint64_t p) { ex::Poly r; mpz_class m(std::to_string(p)); for (auto& t : a.c) { mpz_class q = t.second % m; if (q < 0) q += m; if (q != 0) r.c[t.first] = q; } return r; }
static bool subset(const ex::Poly& a, const ex::Poly& b) { for (auto& t : a.c) if (!b.c.count(t.first)) return false; return true; }
// FireFly documents that monomials which exist in one field only cannot be handled: in every leading field the numerator and
// the denominator have no common factor (or are proportional, with a constant term). Where the denominator vanishes the black box returns zero.
static bool in_domain(const ex::Rat& f, int n) {
  for (int k = 0; k < 3; ++k) { uint64_t p = firefly::primes()[k]; ex::Poly N = red(f.n, p), D = red(f.d, p); if (D.zero() || N.zero()) continue;
    
    if (subset(N, D) && subset(D, N) && D.c.count(ex::Deg(n, 0))) { mpz_class m(std::to_string(p)); bool prop = true; const ex::Deg& d0 = N.c.begin()->first; for (auto& t : N.c) if ((t.second * D.c[d0] - D.c[t.first] * N.c[d0]) % m != 0) prop = false; if (prop) { N = ex::constant(n, 1); D = N; } }
    ex::P() = p; bool co = ex::coprime(N, D); ex::P() = ex::P61; if (!co || !subset(N, f.n) || !subset(D, f.d)) return false; }
  return true; }
// a function that is zero in the first field and a coefficient p1*p2+c: as with p0*p1+c, the first two fields used agree on c by construction
static bool agrees(const std::string& s, const ex::Rat& f) { uint64_t p = firefly::primes()[0]; std::string q = std::to_string(firefly::primes()[1]) + "*" + std::to_string(firefly::primes()[2]); return (red(f.n, p).zero() || red(f.d, p).zero()) && s.find(q) != std::string::npos; }
static void go(int n, const V& fs, const rec::Opt& o) { ex::Rat f0 = ex::parse(fs[0], rec::vars(n)); if (!in_domain(f0, n) || agrees(fs[0], f0)) { vk::count("outside_documented_domain"); return; } if (!vk::mine()) return; std::string s; for (auto& f : fs) s += f + "; "; vk::sample(s); rec::run(n, fs, o); }
static std::string subst(std::string t, const V& v) { std::string r; for (char c : t) if (c >= 'A' && c <= 'F') r += "(" + v[c - 'A'] + ")"; else r += c; return r; }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = true;
  rec::Opt o; o.safe = true; rec::Opt o2 = o; o2.threads = 2; o2.bunch = 4;
  if (vk::st().args.size() > 1) { V f(vk::st().args.begin() + 1, vk::st().args.end()); if (getenv("VK_NORMAL")) o.safe = false; if (getenv("VK_SCAN")) o.shift = true; rec::run(atoi(vk::st().args[0].c_str()), f, o); return vk::finish(); }
  struct { int n; const char* t; V c; } ts[] = {
    {1, "(A+B*x)/(C+D*x)", {"2", "3", "5", "-7"}}, {1, "A+B*x^2", {"2", "3"}}, {1, "A/(B+C*x^3)", {"2", "3", "-1"}}, {2, "(A*x+B*y)/(C+D*x*y)", {"2", "-3", "5", "7"}}, {2, "A+B*x*y+C*y^3", {"1", "2", "3"}}, {2, "(A*x^2+B)/(C*x+D*y)", {"1", "4", "-3", "2"}}, {3, "(A*x*y+B*z)/(C+D*z)", {"1", "-2", "3", "5"}}, {3, "A*x*y*z+B*z^2+C", {"7", "2", "3"}}, {1, "A*x/B", {"3", "2"}}, {2, "(A*x+B*y)*C/D", {"3", "2", "1", "5"}} };
  for (auto& t : ts) { size_t k = t.c.size(); std::vector<V> al; for (auto& c : t.c) al.push_back(values(c, T)); std::vector<size_t> ix(k, 0);
    for (;;) { V v; int special = 0; for (size_t i = 0; i < k; ++i) { v.push_back(al[i][ix[i]]); special += ix[i] != 0; } if (special && (T || special <= 3 )) { std::string f = subst(t.t, v); go(t.n, {f}, o); if (special <= 2) go(t.n, {f, t.n == 1 ? "x+1" : "(x+1)/(y+2)", "0"}, o2); }
      size_t i = 0; while (i < k && ++ix[i] == al[i].size()) ix[i++] = 0; if (i == k) break; } }
  // without safe mode: coefficients of polynomials that vanish in later fields
  rec::Opt d, d2; d2.threads = 2; d2.bunch = 4; rec::Opt d3 = d2; d3.shift = true; std::string p0 = std::to_string(firefly::primes()[0]), p1 = std::to_string(firefly::primes()[1]), p2 = std::to_string(firefly::primes()[2]);
  struct { int n; V f; } zs[] = {{1, {"x+1", "1/(x-2)", "(x^2+3)/(2*x-7)", "x^3", "1"}}, {2, {"x+y", "(x-y)/(1+x*y)", "x^2/y", "3*x*y^2+7", "5/(1+x+y)", "1"}}, {3, {"x*y+z", "(x+y*z)/(z-1)", "z^2/(x+y)"}}};
  for (auto& z : zs) for (auto& f : z.f) for (auto& q : V {p0, p0 + "/3", p0 + "*" + p1}) { std::string g = "(" + q + ")*(" + f + ")"; for (auto* e : {&o, &o2}) { go(z.n, {g}, *e); for (auto& h : z.f) { go(z.n, {g, h}, *e); go(z.n, {h, g, "0"}, *e); } } }
  // zero in the first field in the normal mode (known findings: the run is aborted)
  go(1, {"(" + p0 + ")*(x+1)"}, d); go(2, {"(" + p0 + ")*((x-y)/(1+x*y))"}, d); go(2, {"(" + p0 + ")*((x-y)/(1+x*y))"}, d3);
  for (auto& t : ts) { if (std::string(t.t).find('/') != std::string::npos) continue; // the normal mode documents no more than that: polynomials
    size_t k = t.c.size(); std::vector<V> al; for (auto& c : t.c) al.push_back({c, "(" + p1 + ")", "(" + p1 + "*" + p2 + ")", "(" + p2 + "+(" + c + "))", "(123456789123456789123456789*" + p1 + ")"}); std::vector<size_t> ix(k, 0);
    for (;;) { V v; int special = 0; for (size_t i = 0; i < k; ++i) { v.push_back(al[i][ix[i]]); special += ix[i] != 0; } if (special && (T || special <= 3)) { std::string f = subst(t.t, v); go(t.n, {f}, d); if (special <= 2) go(t.n, {f, t.n == 1 ? "x+1" : "(x+1)/(y+2)", "0"}, d3); }
      size_t i = 0; while (i < k && ++ix[i] == al[i].size()) ix[i++] = 0; if (i == k) break; } }
  return vk::finish();
}
