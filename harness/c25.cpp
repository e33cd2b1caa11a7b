// C25: the functions over the last prime field after a run of one (or more) prime fields, and the continuation of that run.
#include "sched.hpp"
using namespace rec; typedef std::vector<std::string> V;
static std::map<ex::Deg, uint64_t> red(const ex::Poly& p) { std::map<ex::Deg, uint64_t> r; mpz_class P(std::to_string((primes()[0]))); for (auto& m : p.c) { mpz_class q = m.second % P; if (q < 0) q += P; if (q != 0) r[m.first] = q.get_ui(); } return r; }
typedef std::map<ex::Deg, uint64_t> MP;
static MP mul(const MP& a, const MP& b) { MP r; for (auto& x : a) for (auto& y : b) { ex::Deg d = x.first; for (size_t i = 0; i < d.size(); ++i) d[i] += y.first[i]; uint64_t& z = r[d]; z = (uint64_t)(((unsigned __int128)z + (uint64_t)((unsigned __int128)x.second * y.second % (primes()[0]))) % (primes()[0])); } for (auto i = r.begin(); i != r.end();) if (!i->second) i = r.erase(i); else ++i; return r; }
static std::string cmp(const RationalFunctionFF& f, const ex::Rat& w, int n) {
  std::string t = f.to_string(vars(n)); ex::Rat g; try { g = ex::parse(t, vars(n)); } catch (const std::exception& e) { return std::string("unreadable: ") + e.what(); }
  MP d = red(g.d); if (d.empty()) return "the denominator is zero: " + t.substr(0, 200);
  if (mul(red(g.n), red(w.d)) != mul(d, red(w.n))) return "wrong function: " + t.substr(0, 300); return ""; }
struct K { int n; V f; Opt o; int fields; };
static void body(const K& k) { BB bb(k.n, k.f);
  { Reconstructor<BB> r(k.n, k.o.threads, k.o.bunch, bb, 0); options(r, k.o); r.reconstruct(k.fields);
    for (int twice = 0; twice < 2; ++twice) { auto ff = r.get_result_ff(); if (ff.size() != bb.fs.size()) mc::fail("count", "the result has " + std::to_string(ff.size()) + " instead of " + std::to_string(bb.fs.size()) + " functions"); for (size_t i = 0; i < ff.size(); ++i) { std::string e = cmp(ff[i], bb.fs[i], k.n); if (!e.empty()) mc::fail("field-result", "function " + std::to_string(i + 1) + " in the first prime field: " + e); mc::counter(0); } }
    size_t i = 0; for (auto& x : r.get_result()) { while (i < bb.fs.size() && !compare(x, bb.fs[i], bb.n, false).empty()) ++i; if (i++ >= bb.fs.size()) mc::fail("result", "a result of the unfinished run is wrong: " + x.to_string(vars(bb.n)).substr(0, 200)); } }
  if (k.o.save) { RatReconst::reset(); BB b2(k.n, k.f); Reconstructor<BB> r(k.n, k.o.threads, k.o.bunch, b2, 0); Opt o = k.o; o.save = false; o.resume = true; options(r, o); r.reconstruct(); check_all(r.get_result(), b2, true); } }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); std::vector<K> ks; bool T = vk::thorough();
  const std::string big = "123456789123456789123456789", b2 = "987654321987654321987654321987654321987654321/7";
  std::vector<std::pair<int, V>> sets; for (auto& f : V {"x", "0", "4/7", "1/x", "x^5-3", "(1+x)/(2-3*x^2)", big + "*x+1", "x/(" + big + "*x^2+3)", b2 + "*x^3-x"}) sets.push_back({1, {f}});
  V two = {"0", "3", "x+y", "x*y", "1/(x+y)", "(x+y)/(1+x*y)", "(3*x^2+y)/(x-y)", "x^3*y-7", big + "*x*y+y", "x/(y+" + big + ")", "(x^2-" + b2 + "*y)/(x*y+1)", "(1+x+y)^4/(1-x*y)^2", "y^2/(x^3+5)"};
  for (auto& f : two) sets.push_back({2, {f}}); for (auto& f : two) for (auto& g : two) if (f != g) sets.push_back({2, {f, g}});
  for (auto& f : V {"x*y*z", "(x*y+z)/(1+x)", "1/(x+y+z)", "(x+y+z)^3", big + "*x*z+y", "(x-" + big + "*z)/(y*z+1)"}) { sets.push_back({3, {f}}); sets.push_back({3, {"x-y", f, "z/(x+1)"}}); } sets.push_back({4, {"(x*y+z*w)/(x+w)", big + "*w^2"}});
  for (auto& s : sets) for (int th : {1, 2, 4}) for (int bu : {1, 4}) for (int m = 0; m < 8; ++m) for (int st : {1}) { K k; k.n = s.first; k.f = s.second; k.o.threads = th; k.o.bunch = bu; k.o.shift = m & 1; k.o.safe = m & 2; k.o.save = m & 4; if ((m & 3) == 3) continue; if (!T && s.second.size() == 2 && (th == 4 || (th == 2 && bu == 1)) ) continue; k.fields = st; ks.push_back(k); }
  if (getenv("NOZERO")) { std::vector<K> q; for (auto& k : ks) { bool z = false; for (auto& f : k.f) if (f == "0") z = true; if (!z) q.push_back(k); } ks = q; }
  // every schedule: jobs of the next prime field may still run when the results are taken
  auto sch = [&](int n, const V& f, int th, int bu, const char* opt, int pre, int ch) { if (!vk::mine()) return; sched::Case c; c.n = n; c.f = f; c.o.threads = th; c.o.bunch = bu; for (; *opt; ++opt) { if (*opt == 's') c.o.shift = 1; if (*opt == 'S') c.o.safe = 1; } c.pre = pre; c.ch = ch; c.extra = ", 1 prime field"; sched::go(c, [] { K k; k.n = sched::cs()->n; k.f = sched::cs()->f; k.o = sched::cs()->o; k.fields = 1; body(k); }, T ? 600 : 60); };
  for (const char* opt : {"", "S"}) for (auto& f : std::vector<V> {{"4/7"}, {big + "*x"}, {"x", b2 + "*x"}, {"1/x"}}) { sch(1, f, 1, 1, opt, T ? 2 : 1, 1); sch(1, f, 2, 1, opt, T ? 2 : 1, T); sch(1, f, 2, 2, opt, 1, T); } sch(2, {"x*y", big + "*x"}, 1, 1, "", 1, T); sch(2, {"x+y"}, 1, 1, "s", 1, 0); if (T) { sch(2, {big + "*x*y"}, 2, 2, "S", 1, 0); sch(2, {big + "*x*y", "3"}, 3, 1, "", 1, 0); }
  for (auto& k : ks) { if (!vk::mine()) continue; rec::remove_dir("ff_save"); std::string nm = std::to_string(k.n) + " variables, " + k.o.text() + ", " + std::to_string(k.fields) + " prime fields: "; for (auto& f : k.f) nm += f + "; "; vk::sample(nm); one(nm, [&] { body(k); }); rec::remove_dir("ff_save"); }
  return vk::finish();
}
