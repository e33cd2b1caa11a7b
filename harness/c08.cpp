// C08: every combination of the options on a list of black boxes, under the deterministic scheduler; the results must be the exact functions.
#include "recon.hpp"
static void go(int n, const std::vector<std::string>& fs, const rec::Opt& o) { if (!vk::mine()) return; rec::remove_dir("ff_save"); std::string s = o.text(); for (auto& f : fs) s += ", " + f; vk::sample(s); rec::run(n, fs, o); rec::remove_dir("ff_save"); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = true;
  typedef std::vector<std::string> V; struct B { int n; V f; };
  std::vector<B> bbs = {
    {2, {"(x+y)/(1+x*y)", "0", "x^3*y-7"}}, {1, {"(1+x)/(2-3*x^2)", "x^5"}}, {2, {"(3*x^2+y)/(x-y)"}}, {3, {"(x*y+z)/(1+x)", "1/(x+y+z)"}}, {2, {"0"}}, {2, {"4/7"}}, {1, {"3", "1/x"}},
    {2, {"123456789123456789123456789123456789*x/(y+987654321987654321987654321)", "x+y", "x^4*y^4/(1+x)"}}, {3, {"x^2*(y+1)*(z-2)/(y*(3*x+1))", "(x+1)^2*(x*y*z+5)", "z"}}, {2, {"(x+2)*(y-3)", "1/((x+2)^2*y)"}}, {4, {"(x*y+z*w)/(x+w)", "w^2"}}, {2, {"(1+x+y)^5/(1-x*y)^2"}}, {3, {"(x+y+z)^3", "x^2/y"}} };
  // degrees that make the factor scan reorder the variables while only some of them have to be shifted
  for (auto& d : std::vector<std::array<int, 3>> {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}) { auto w = [&](const char* v, int k) { return std::string(v) + "^" + std::to_string(d[k]); }; std::string x = w("x", 0), y = w("y", 1), z = w("z", 2);
    bbs.push_back({3, {"(" + x + "*y-" + y + "*" + z + ")/(" + x + "+5*" + y + "*z)"}}); bbs.push_back({3, {"x/(" + x + "*" + z + "+3*" + y + ")", "y*(" + z + "-2)"}}); }
  if (vk::thorough()) for (auto& f : V {"x^3", "1/(x+y)", "x*y/(x-2*y)", "(x+1)/(y+1)", "(x^2-y^2)/(x^2+y^2)", "1/x", "y", "(x*y-1)^3", "x^2*(x+3)/(y^2*(1-y))", "(x+y+1)/(x^3*y^2+5)", "77777777777777777777777777/3*x-y", "x/(123456789123456789*y+3)"}) { bbs.push_back({2, {f}}); bbs.push_back({2, {"x-y", f, "1/y"}}); }
  std::vector<int> threads = T ? std::vector<int> {1, 2, 3, 4, 8} : std::vector<int> {1, 2, 4}, bunches = T ? std::vector<int> {1, 2, 4, 8, 16, 32, 64, 128} : std::vector<int> {1, 2, 8, 128};
  for (auto& b : bbs) for (int th : threads) for (int bu : bunches) for (int m = 0; m < 16; ++m) for (int us = 0; us < 4; ++us) {
    rec::Opt o; o.threads = th; o.bunch = bu; o.shift = m & 1; o.factor = m & 2; o.safe = m & 4; o.save = m & 8;
    if (us & 1) { for (int p = 0; p < 3; ++p) { std::vector<uint64_t> a; for (int i = 0; i < b.n - 1; ++i) a.push_back(1234567890123ull + 7919 * i + 104729 * p); o.anchors.push_back(a); } if (b.n == 1) continue; }
    if (us & 2) { for (int p = 0; p < 3; ++p) { std::vector<uint64_t> a; for (int i = 0; i < b.n; ++i) a.push_back(98765432101ull + 31337 * i + 65537 * p); o.shifts.push_back(a); } }
    if (!T && us && (th > 2 || bu == 2)) continue;
    go(b.n, b.f, o); }
  // verbosity, non powers of two
  for (auto& b : bbs) for (int v = 0; v <= 2; ++v) for (int m = 0; m < 16; ++m) { rec::Opt o; o.verbosity = v; o.threads = 2; o.bunch = 4; o.shift = m & 1; o.factor = m & 2; o.safe = m & 4; o.save = m & 8; if (v || T) go(b.n, b.f, o); }
  return vk::finish();
}
