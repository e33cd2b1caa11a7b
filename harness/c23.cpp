// C23: factor scan on every pattern of univariate factors; results, the factor strings and the early stop.
#include "recon.hpp"
typedef std::vector<std::string> V;
static size_t dg(const ex::U& u) { return u.empty() ? 0 : u.size() - 1; }
// degrees of numerator and denominator in lowest terms on a generic line
static std::pair<size_t, size_t> degs(const ex::Rat& r, int n) { ex::U a = ex::line(r.n, n), b = ex::line(r.d, n), x = a, y = b; while (!y.empty()) { ex::U q = ex::urem(x, y); x = y; y = q; } return {dg(a) - dg(x), dg(b) - dg(x)}; }
static void stop_case(int n, const V& fs, const rec::Opt& o0) {
  rec::Opt o = o0; o.factor = true; o.stop_factors = true; std::string name = "factor scan only, " + std::to_string(n) + " variables, " + o.text() + ": "; for (auto& f : fs) name += f + "; ";
  rec::one(name, [&] { rec::BB bb(n, fs); rec::Reconstructor<rec::BB> r(n, o.threads, o.bunch, bb, 0); rec::options(r, o); r.reconstruct(); auto v = rec::vars(n); auto s = r.get_factors_string(v); if (s.size() != fs.size()) mc::fail("factors-count", "get_factors_string returns " + std::to_string(s.size()) + " strings");
    for (size_t i = 0; i < s.size(); ++i) { ex::Rat F; try { F = ex::parse(s[i], v); } catch (const std::exception& e) { mc::fail("factors-text", s[i] + ": " + e.what()); } const ex::Rat& f = bb.fs[i]; if (f.n.zero()) continue; if (F.n.zero() || F.d.zero()) mc::fail("factors-zero", s[i]); ex::Rat q = ex::div(f, F); auto a = degs(f, n), b = degs(F, n), c = degs(q, n); if (a.first != b.first + c.first || a.second != b.second + c.second) mc::fail("factors-divide", "the factors " + s[i] + " do not divide " + fs[i]); mc::counter(0, b.first + b.second); } });
}
static void go(int n, const V& fs, const rec::Opt& o) { if (!vk::mine()) return; std::string s; for (auto& f : fs) s += f + "; "; vk::sample(s); rec::run(n, fs, o); stop_case(n, fs, o); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = true; rec::Opt o; o.factor = true; rec::Opt os = o; os.shift = true; os.threads = 2; os.bunch = 4;
  if (vk::st().args.size() > 1) { V f(vk::st().args.begin() + 1, vk::st().args.end()); rec::run(atoi(vk::st().args[0].c_str()), f, o); stop_case(atoi(vk::st().args[0].c_str()), f, o); return vk::finish(); }
  V fx = {"1", "x", "(x+1)", "(2*x-3)", "(x^2+1)", "(x+1)^2", "x*(x-5)"}, fy = {"1", "y", "(y-1)", "(3*y+7)", "y^2*(y+2)"};
  bool TT = vk::thorough(); if (TT) { fx.push_back("(x^3-2)"); fx.push_back("(5*x+1)^3"); fy.push_back("(y^2+y+1)"); fy.push_back("y*(y-4)^2"); }
  V core = {"1", "(x+y)", "1/(x-y)", "(x*y+1)/(x+2*y)", "-3/7", "0"};
  for (auto& a : fx) for (auto& b : fx) for (auto& c : fy) for (auto& d : fy) for (auto& k : core) { if (!T && ((&a - &fx[0]) + (&b - &fx[0]) + (&c - &fy[0]) + (&d - &fy[0]) + (&k - &core[0])) % 2 && k != core[3]) continue; go(2, {"(" + a + "*" + c + ")*(" + k + ")/(" + b + "*" + d + ")"}, o); }
  if (TT) for (auto& a : fx) for (auto& b : fx) for (auto& c : fy) for (auto& d : fy) for (auto& k : core) go(2, {"(" + a + "*" + c + ")*(" + k + ")/(" + b + "*" + d + ")", "x+y^2"}, os);
  // one variable: everything is a factor
  for (auto& a : fx) for (auto& b : fx) for (auto& k : V {"1", "5/11", "(x^3+x+1)", "1/(7*x^2+3)"}) { std::string f = "(" + a + ")*(" + k + ")/(" + b + ")"; go(1, {f}, o); go(1, {f, "x^2-4"}, os); }
  // three variables, any variable order
  V g = {"1", "x^3*(x+2)", "(y-4)^5", "z*(z^2+3)"}, kc = {"1", "(x+y*z)", "1/(x*y*z+1)", "(x^4+y^2+z)", "(x+y^4+z^2)/(z-y)", "1/(z^5+x*y)"};
  for (auto& a : g) for (auto& b : g) for (auto& k : kc) { go(3, {"(" + a + ")*(" + k + ")/(" + b + ")"}, o); if (T || &a != &b) go(3, {"(" + a + ")*(" + k + ")/(" + b + ")"}, os); }
  for (auto& a : g) for (auto& b : g) for (auto& c : g) for (auto& k : kc) { if (!T && k != kc[4] && k != kc[0]) continue; go(3, {"(" + a + ")*(" + b + ")*(" + c + ")*(" + k + ")"}, o); }
  // vectors: different factors, whole functions, no factors, zero
  V vs = {"0", "5", "x^2*(y+1)/(x-3)", "(x+y)*(x+1)", "(x+y)/(x*y-2)", "1/(y^3*(x+y))", "(x-1)^4", "x^2*y^3+7*x", "(x+1)/(y-1)^2"};
  for (auto& a : vs) for (auto& b : vs) { go(2, {a, b}, o); if (T || a < b) go(2, {a, b}, os); for (auto& c : T ? vs : V {vs[2], vs[4]}) go(2, {a, b, c}, o); } go(2, vs, o); go(2, V(vs.rbegin(), vs.rend()), os);
  // coefficients that need several prime fields
  V h = {"1", "123456789123456789123456789", "1/98765432109876543210987654321", "-7777777777777777777777777/3"}; for (auto& a : h) for (auto& b : h) for (auto& c : h) { go(2, {"((" + a + ")*x+(" + b + "))*y^2/((" + c + ")+y)"}, o); go(2, {"((" + a + ")*x+(" + b + "))*(x+(" + c + ")*y)/((" + c + ")*x+1)^2"}, o); go(3, {"((" + a + ")*x^2+(" + b + "))*(z+(" + c + ")*y)/((" + c + ")*z+1)", "(y+(" + a + "))*(x*z+(" + b + "))"}, os); }
  for (auto& f : V {"x*y*z*w/(x+w)", "(w^3+1)*(x+y)/(z-1)", "(w+1)*(z+2)*(y+3)*(x+4)", "(x*w^5+y*z)*z^3/(y+1)"}) { go(4, {f}, o); go(4, {f, "w^2/(x+1)"}, os); }
  return vk::finish();
}
