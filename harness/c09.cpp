// C09: all interleavings (within bounds) of reconstructions with several threads.
#include "sched.hpp"
using sched::Case;
static void body() { const Case* cs = sched::cs(); rec::BB bb(cs->n, cs->f); rec::Reconstructor<rec::BB> r(cs->n, cs->o.threads, cs->o.bunch, bb, cs->o.verbosity); rec::options(r, cs->o); r.reconstruct(cs->o.primes); rec::check_all(r.get_result(), bb, !cs->o.factor); }
typedef std::vector<std::string> V; struct F { int n; V f; };
static void go(const F& f, int th, int bu, const char* opt, int pre, int ch) { if (!vk::mine()) return; Case c; c.n = f.n; c.f = f.f; c.o.threads = th; c.o.bunch = bu; for (; *opt; ++opt) { if (*opt == 's') c.o.shift = 1; if (*opt == 'f') c.o.factor = 1; if (*opt == 'S') c.o.safe = 1; } c.pre = pre; c.ch = ch; sched::go(c, body, vk::thorough() ? 600 : 100); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough(); Case c; if (sched::from_args(c)) { sched::go(c, body, 60); return vk::finish(); }
  const std::string big = "123456789123456789123456789/7*x+5";
  std::vector<F> tiny = {{1, {"4/7"}}, {1, {"0"}}, {1, {"x"}}}, small = {{1, {"1/x"}}, {1, {"(1+x)/(2-x)"}}, {1, {big}}, {1, {"x", "0"}}, {1, {"3", "1/x", "x^2"}}}, two = {{2, {"x*y"}}, {2, {"(x+y)/(x-y)"}}, {2, {"x*y", "0"}}, {2, {"(1+x*y)/(x+3*y)", "x"}}, {2, {"123456789123456789123*x+y", "5"}}, {3, {"x*y+z"}}};
  // longest first
  for (auto& f : two) { for (auto o : {"", "s", "S", "sS"}) go(f, 2, o[0] ? 1 : 2, o, 1, 0); go(f, 2, 1, "", 1, 0); go(f, 1, 2, "", 1, -1); }
  for (auto& f : {two[0], two[2], two[3]}) go(f, 3, 1, "", 1, 0);
  go(two[1], 2, 4, "sf", 1, 0); go(two[4], 2, 2, "f", 1, 0); go({1, {"(x+1)^2/(x-3)"}}, 2, 2, "f", 1, 0);
  for (auto& f : small) { go(f, 2, 1, "", 1, T ? 2 : 1); go(f, 2, 2, "", 1, 0); go(f, 1, 1, "", 1, -1); go(f, 3, 1, "", 1, 0); }
  for (auto& f : tiny) { go(f, 2, 1, "", T ? 2 : 1, T ? 1 : 2); go(f, 2, 2, "", 1, 1); go(f, 1, 1, "", T ? 3 : 2, -1); go(f, 3, 1, "", 1, 1); }
  go(tiny[0], 2, 1, "", 2, 0); go(tiny[2], 2, 1, "", 0, -1); go(tiny[0], 2, 1, "", 0, -1);
  if (T) { for (auto& f : small) { go(f, 2, 1, "", 2, 0); go(f, 1, 1, "", 2, -1); go(f, 3, 2, "", 1, 1); } for (auto& f : two) { go(f, 2, 1, "", 1, 1); go(f, 3, 2, "s", 1, 0); go(f, 4, 1, "", 1, 0); go(f, 1, 1, "", 2, 0); } }
  return vk::finish();
}
