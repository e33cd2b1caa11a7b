// C26: sequences of reconstructions in one process, separated by RatReconst::reset().
#include "recon.hpp"
using namespace rec; typedef std::vector<std::string> V;
struct S { const char* name; int n; V f; std::string opt; int primes; };
// letters: s shift scan, f factor scan, S safe, a anchor points, z shifts, k states are saved, r resumed (k with an interrupted run before), e early results, F stop after the factor scan
static void run1(const S& s, int th, int bu) { BB bb(s.n, s.f); Reconstructor<BB> r(s.n, th, bu, bb, 0); Opt o; o.threads = th; o.bunch = bu; bool resumed = false;
  for (char c : s.opt) { if (c == 's') o.shift = 1; if (c == 'f') o.factor = 1; if (c == 'S') o.safe = 1; if (c == 'k') o.save = 1; if (c == 'F') o.factor = o.stop_factors = 1; if (c == 'r') resumed = o.resume = true;
    if (c == 'a') for (int p = 0; p < 3; ++p) { std::vector<uint64_t> a; for (int i = 0; i < s.n - 1; ++i) a.push_back(1234567890123ull + 7919 * i + 104729 * p); o.anchors.push_back(a); }
    if (c == 'z') for (int p = 0; p < 3; ++p) { std::vector<uint64_t> a; for (int i = 0; i < s.n; ++i) a.push_back(98765432101ull + 31337 * i + 65537 * p); o.shifts.push_back(a); } }
  (void)resumed; options(r, o); r.reconstruct(s.primes); if (o.stop_factors) { r.get_factors_string(vars(s.n)); return; } if (s.primes < 300) { if (!o.factor) r.get_result_ff(); auto res = r.get_result(); size_t i = 0; for (auto& x : res) { while (i < bb.fs.size() && !compare(x, bb.fs[i], bb.n, false).empty()) ++i; if (i++ >= bb.fs.size()) mc::fail("result", "a result of the unfinished run is wrong: " + x.to_string(vars(bb.n)).substr(0, 200)); } return; }
  check_all(r.get_result(), bb, !o.factor); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough(); const std::string big = "123456789123456789123456789";
  std::vector<S> l = {{"a", 1, {"(1+x)/(2-3*x^2)", "x^5"}, "", 300}, {"b", 2, {"(x+y)/(1+x*y)", "0", "x^3*y-7"}, "", 300}, {"c", 2, {"(x+y)/(x-" + big + "*y)", "x"}, "", 300}, {"c1", 2, {"(x+y)/(x-" + big + "*y)", "x"}, "", 1}, {"d", 3, {"(x*y+z)/(1+x)", "1/(x+y+z)"}, "s", 300}, {"e", 2, {"x^2*(y+1)/(y*(3*x+1))", "x*y+" + big}, "f", 300}, {"ef", 3, {"x*(y+1)^2*(z-3)/(x+2)", "(x+1)*(x+z)"}, "F", 300}, {"g", 2, {"(x+" + big + "*y)/(1+x*y^2)"}, "S", 300}, {"h", 3, {"(x+y)/(z+x*y)", "x*z"}, "a", 300}, {"i", 2, {"(x+y)/(2-x*y)", "1/(x+y)"}, "z", 300}, {"j", 2, {"(x+y^2)/(x-" + big + "*y)", "x"}, "k", 300}, {"j1", 2, {"(x+y^2)/(x-" + big + "*y)", "x"}, "k", 1}, {"jr", 2, {"(x+y^2)/(x-" + big + "*y)", "x"}, "kr", 300}, {"m", 4, {"(x*y+z*w)/(x+w)"}, "sf", 300}, {"n", 1, {"3", "1/x", big + "/7*x"}, "", 300}, {"o", 3, {"x^3*y/(x-z^2)", "z/(y^2+" + big + ")"}, "sf", 300}, {"p", 5, {"x*u+y*z*w", "1/(x+y+z+w+u)"}, "s", 300}, {"q", 2, {"0"}, "", 300}, {"r", 2, {"9223372036854775783*x+y"}, "S", 300}, {"az", 2, {"(x-y)/(x*y+3)"}, "saz", 300}};
  auto seq = [&](std::vector<int> ix, int th, int bu) { bool saved = false; for (int i : ix) { if (l[i].opt.find('r') != std::string::npos && !saved) return; saved = std::string(l[i].name) == "j1" || (saved && l[i].opt.find('k') == std::string::npos); } if (!vk::mine()) return; rec::remove_dir("ff_save"); std::string nm = "threads " + std::to_string(th) + " bunch " + std::to_string(bu) + ":"; for (int i : ix) { nm += std::string(" [") + std::to_string(l[i].n) + " variables " + l[i].opt + (l[i].primes < 300 ? " one prime field" : "") + ":"; for (auto& f : l[i].f) nm += " " + f + ";"; nm += "]"; } vk::sample(nm);
    one(nm, [&] { for (size_t k = 0; k < ix.size(); ++k) { if (k) RatReconst::reset(); if (l[ix[k]].opt == "k") rec::remove_dir("ff_save"); run1(l[ix[k]], th, bu); } }, 120); rec::remove_dir("ff_save"); };
  int N = (int)l.size(); for (int th : {1, 2, 3}) for (int bu : {1, 8}) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { seq({i, j}, th, bu); if ((th == 1 && bu == 1) || (th == 2 && bu == 8) || T) for (int k = 0; k < N; ++k) seq({i, j, k}, th, bu); }
  if (T) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int k = 0; k < N; ++k) for (int m = 0; m < N; ++m) seq({i, j, k, m}, 2, 2);
  return vk::finish();
}
