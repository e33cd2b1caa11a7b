// C07: the real Reconstructor on every function of bounded families, against exact rational arithmetic.
#include "recon.hpp"
static rec::Opt o;
static void go(int n, const std::vector<std::string>& fs) { if (vk::mine()) { std::string s; for (auto& f : fs) s += f + "; "; vk::sample(s); rec::run(n, fs, o); } }
// all sums over the monomials ms with coefficients from cs[k] at position k ("0" = absent)
static std::vector<std::string> sums(const std::vector<std::string>& ms, const std::vector<std::vector<std::string>>& cs) {
  std::vector<std::string> r = {""}; for (size_t k = 0; k < ms.size(); ++k) { std::vector<std::string> t; for (auto& p : r) for (auto& c : cs[k]) t.push_back(c == "0" ? p : p + "+(" + c + ")*" + ms[k]); r = t; }
  for (auto& s : r) s = s.empty() ? "0" : s.substr(1); return r; }
static std::vector<std::string> sums(const std::vector<std::string>& ms, const std::vector<std::string>& c) { return sums(ms, std::vector<std::vector<std::string>>(ms.size(), c)); }
static void quotients(int n, const std::vector<std::string>& a, const std::vector<std::string>& b) { for (auto& x : a) for (auto& y : b) if (y != "0") go(n, {"(" + x + ")/(" + y + ")"}); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = true; typedef std::vector<std::string> V;
  if (vk::st().args.size() > 1) { V f(vk::st().args.begin() + 1, vk::st().args.end()); rec::run(atoi(vk::st().args[0].c_str()), f, o); return vk::finish(); }
  // one variable
  V u2 = sums({"1", "x", "x^2"}, V {"0", "1", "-2", "5/3"}); quotients(1, u2, u2);
  V u3 = sums({"1", "x", "x^2", "x^3"}, T ? V {"0", "1", "-3", "2/7"} : V {"0", "1", "-3"}); quotients(1, u3, u3);
  V us = sums({"1", "x^3", "x^7"}, V {"0", "1", "-4/9"}); quotients(1, us, us);
  // two variables
  V b1 = sums({"1", "x", "y", "x*y"}, T ? V {"0", "1", "-2", "1/3"} : V {"0", "1", "-2"}); quotients(2, b1, b1);
  V b2 = sums({"1", "x", "y", "x*y"}, std::vector<V> {{"0", "3"}, {"0", "-1/2"}, {"0", "7"}, {"0", "-5/11"}}); quotients(2, b2, b2);
  V b3 = sums({"x", "y^2", "x^2*y", "x*y^3"}, std::vector<V> {{"0", "2"}, {"0", "-1/3"}, {"0", "5"}, {"0", "-7"}}); V b4 = sums({"1", "x^2", "y^3", "x*y"}, std::vector<V> {{"0", "1"}, {"0", "-4"}, {"0", "9/2"}, {"0", "13"}}); quotients(2, b3, b4); quotients(2, b4, b3); quotients(2, b3, b3); quotients(2, b4, b4); V b5 = sums({"1", "x^2", "x*y", "y^2", "x", "y"}, V {"0", "1"}); quotients(2, b5, T ? b5 : V {"1", "1+x", "x^2-y", "x*y+3*y"});
  // three variables
  V c1 = sums({"1", "x", "y", "z", "x*y*z"}, std::vector<V> {{"0", "2"}, {"0", "-3"}, {"0", "5/7"}, {"0", "11"}, {"0", "-1"}}); V c2 = T ? sums({"1", "x*y", "z", "x", "y*z^2"}, V {"0", "1", "-2"}) : sums({"1", "x*y", "z"}, V {"0", "1"}); quotients(3, c1, c2); quotients(3, c2, c1);
  V c3 = sums({"x^2", "y*z", "z^3", "x*y^2*z"}, std::vector<V> {{"0", "1/2"}, {"0", "-3"}, {"0", "4"}, {"0", "5"}}); quotients(3, c3, c1); quotients(3, c1, c3);
  // four and more variables
  V d1 = sums({"1", "x*y", "z*w^2", "w"}, V {"0", "1"}), d2 = sums({"1", "x", "y*w", "z^2"}, V {"0", "-3"}); quotients(4, d1, d2);
  V e1 = sums({"x*y*z*w*u", "u^2", "1"}, V {"0", "2"}), e2 = sums({"x+y", "z*w*u", "1"}, V {"0", "1"}); quotients(5, e1, e2);
  if (T) { quotients(6, {"x+y+z+w+u+v", "x*y*z*w*u*v", "1"}, {"1", "v", "1+x*v", "x*y+z*w+u*v"}); }
  // huge and awkward coefficients
  V h = {"1", "-9223372036854775808", "340282366920938463463374607431768211456/7", "1/1000000000000000000000000000057", "-57896044618658097711785492504343953926634992332820282019728792003956564819949/31"};
  V hh; for (auto& a : h) for (auto& b : h) hh.push_back("(" + a + ")*x+(" + b + ")*y"); for (auto& a : hh) for (auto& c : T ? h : V {h[0], h[3]}) for (auto& d : T ? h : V {h[1], h[4]}) go(2, {"(" + a + ")/((" + c + ")+(" + d + ")*x*y)"}); for (auto& a : h) for (auto& b : h) { go(1, {"(" + a + ")*x^2+(" + b + ")"}); go(1, {"(" + a + ")/(" + b + ")"}); go(2, {"((" + a + ")+(" + b + ")*x)*y/(1+y)"}); }
  // high degrees, dense and factored
  for (int k = 1; k <= (T ? 40 : 16); ++k) { std::string e = std::to_string(k); go(1, {"(1+x)^" + e}); go(1, {"1/(1-2*x)^" + e}); go(1, {"x^" + e}); go(1, {"1/x^" + e}); go(1, {"(x^" + e + "-1)/(x-1)"}); if (k <= (T ? 14 : 8)) { go(2, {"(x+y)^" + e}); go(2, {"(1+x)^" + e + "/(y-3)^" + e}); go(2, {"(x-y)^" + e + "/(1+x*y)"}); go(2, {"x^" + e + "*y+y^" + e}); } if (k <= (T ? 7 : 4)) { go(3, {"(x+2*y-z)^" + e}); go(3, {"1/(1+x+y+z)^" + e}); go(3, {"(x*y-z)^" + e + "/(x-y*z)^" + e}); go(4, {"(x+y+z+w)^" + e + "/(x*y*z*w-1)"}); } }
  // vectors of functions of very different complexity, in every order
  V vs = {"0", "7", "-3/8", "x", "1/y", "x+y", "(x+y)/(x-y)", "x^5*y^4", "1/(1+x*y)", "(1+x+y)^4/(2-x)", "123456789123456789123456789*x/(y+x)", "y^6+x"};
  for (auto& a : vs) for (auto& b : vs) { go(2, {a, b}); if (a != b) for (auto& c : T ? vs : V {"0", "x+y", "(x+y)/(x-y)", "(1+x+y)^4/(2-x)"}) go(2, {a, b, c}); }
  go(2, vs); { V r(vs.rbegin(), vs.rend()); go(2, r); V all; for (int k = 0; k < 6; ++k) for (auto& s : vs) all.push_back("(" + s + ")*" + std::to_string(k + 1)); go(2, all); }
  V ws = {"0", "1", "x*y*z", "(x+y*z)/(1-z)", "1/(x+y+z)^3", "z^7"}; for (auto& a : ws) for (auto& b : ws) for (auto& c : ws) go(3, {a, b, c});
  if (vk::thorough()) {
    V t1 = sums({"1", "x", "x^2", "x^3"}, V {"0", "1", "-3", "2/7", "-1"}); quotients(1, t1, t1);
    V t2 = sums({"1", "x", "y", "x*y"}, V {"0", "1", "-2", "1/3", "-1"}); quotients(2, t2, t2);
    V t3 = sums({"1", "x", "y*z", "z", "x*y"}, V {"0", "1", "-2"}); quotients(3, t3, t3);
    V t4 = sums({"x^3", "x*y^2", "y^5", "x^2*y^2", "1", "x"}, V {"0", "1", "-5/3"}), t5 = sums({"y^2", "x^4", "x*y", "1"}, V {"0", "7"}); quotients(2, t4, t5); quotients(2, t5, t4);
  }
  return vk::finish();
}
