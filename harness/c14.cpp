// C14: distributed reconstruction; all ranks in one process (one copy of the library each), all interleavings within bounds.
#include "sched.hpp"
#include <thread>
using sched::Case; typedef std::vector<std::string> V;
void c14_worker1(int, int, int, const V&); void c14_worker2(int, int, int, const V&);
struct Cfg { int world = 2, wthreads = 1, wbunch = 1; bool sync = false; }; static Cfg g;
// one run of the program on all ranks; returns when all of them have finished
static void program(const Case* cs, const Cfg& k, const rec::Opt& o, bool check) {
  fakempi::reset(k.world, k.sync); std::vector<std::thread> w;
  w.emplace_back([=] { c14_worker1(cs->n, k.wthreads, k.wbunch, cs->f); }); if (k.world > 2) w.emplace_back([=] { c14_worker2(cs->n, k.wthreads, k.wbunch, cs->f); });
  rec::BB bb(cs->n, cs->f); { rec::Reconstructor<rec::BB> r(cs->n, o.threads, o.bunch, bb, o.verbosity); rec::options(r, o); r.reconstruct(o.primes); MPI_Finalize(); if (check) rec::check_all(r.get_result(), bb, !o.factor); }
  for (auto& t : w) t.join(); if (fakempi::undelivered()) mc::fail("mpi-undelivered", std::to_string(fakempi::undelivered()) + " messages have never been received"); }
static void body() {
  const Case* cs = sched::cs(); if (cs->mode == 0) { program(cs, g, cs->o, true); return; }
  // a run which ends after some prime fields (9: after the factor scan), resumed with other workers
  rec::Opt o = cs->o; Cfg k = g; if (cs->mode == 9) { o.stop_factors = true; program(cs, g, o, false); return; }
  rec::remove_dir("ff_save"); o.save = true; o.primes = cs->mode; program(cs, g, o, false); o.resume = true; o.primes = 300; k.wthreads = 3 - k.wthreads; k.sync = !k.sync; program(cs, k, o, true); }
struct F { int n; V f; };
static void go(const F& f, int th, int bu, const char* opt, int world, int wth, int wbu, bool sync, int pre, int ch, int mode = 0) {
  if (!vk::mine()) return; Case c; c.n = f.n; c.f = f.f; c.o.threads = th; c.o.bunch = bu; for (; *opt; ++opt) { if (*opt == 's') c.o.shift = 1; if (*opt == 'f') c.o.factor = 1; if (*opt == 'S') c.o.safe = 1; if (*opt >= '1' && *opt <= '9') mode = *opt - '0'; } c.mode = mode; c.pre = pre; c.ch = ch; g.world = world; g.wthreads = wth; g.wbunch = wbu; g.sync = sync;
  c.extra = ", " + std::to_string(world - 1) + " workers with " + std::to_string(wth) + " threads bunch " + std::to_string(wbu) + (sync ? ", synchronous messages" : ", eager messages") + (mode == 9 ? ", stopped after the factor scan" : mode ? ", stopped after " + std::to_string(mode) + " prime fields and resumed" : std::string()); sched::go(c, body, vk::thorough() ? 600 : 100, RACES); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough();
  { auto& a = vk::st().args; if (a.size() >= 11) { go({atoi(a[0].c_str()), V(a.begin() + 10, a.end())}, atoi(a[1].c_str()), atoi(a[2].c_str()), a[3] == "-" ? "" : a[3].c_str(), atoi(a[4].c_str()), atoi(a[5].c_str()), atoi(a[6].c_str()), a[7] == "1", atoi(a[8].c_str()), atoi(a[9].c_str())); return vk::finish(); } }
  const std::string big = "123456789123456789123456789*x+1/7*y", bigq = "(123456789123456789123456789*x+1/7*y)/(x-5)";
  std::vector<F> one = {{1, {"x"}}, {1, {"4/7"}}, {1, {"(1+x)/(2-x)"}}}, small = {{1, {"3", "1/x", "x^2"}}, {2, {"x*y+1"}}, {2, {"(x+y)/(x-y)"}}}, many = {{2, {"x*y", "0"}}, {2, {"(1+x*y)/(x+3*y)", "x"}}, {2, {big, "5"}}, {2, {bigq, "x", "y/x"}}, {3, {"x*y+z"}}, {3, {"(x+y)/(z-1)", big}}, {1, {"0"}}, {1, {"123456789123456789123456789123456789/7*x+5"}}, {2, {"(x+1)^2*(y-3)/(x*y)", "x-y"}}};
  std::vector<F> all = one; all.insert(all.end(), small.begin(), small.end()); all.insert(all.end(), many.begin(), many.end());
  // longest first: all interleavings with one preemption
  for (bool sy : {false, true}) { go(many[3], 2, 1, "", 2, 1, 1, sy, 1, 0); go(small[2], 2, 1, "f", 2, 1, 1, sy, 1, 0); go(many[1], 2, 1, "", 2, 1, 1, sy, 1, 0); go(small[2], 2, 1, "s", 2, 1, 1, sy, 1, 0); go(many[2], 2, 1, "", 2, 1, 1, sy, 1, 0); go(small[1], 3, 1, "", 2, 1, 1, sy, 1, 0); go(small[1], 2, 1, "", 2, 2, 1, sy, 1, 0); go(small[0], 2, 1, "", 2, 1, 1, sy, 1, 0); go(small[1], 2, 1, "", 3, 1, 1, sy, 1, 0); go(small[2], 2, 2, "", 2, 2, 2, sy, 1, 0);
    go(one[0], 2, 1, "f9", 2, 1, 1, sy, 1, 0); go(one[2], 2, 1, "", 2, 1, 1, sy, 1, 0); go(one[0], 2, 1, "", 2, 1, 1, sy, 1, 1); go(one[1], 2, 1, "", 2, 1, 1, sy, 1, 1); go(one[0], 2, 1, "", 3, 1, 1, sy, 0, 2); go(one[0], 2, 1, "", 2, 1, 0, sy, 2, 0); go(one[0], 3, 1, "", 2, 2, 1, sy, 0, 1);
    if (T) { for (auto& f : all) { go(f, 2, 1, "", 2, 1, 1, sy, 1, 0); go(f, 2, 1, "s", 2, 1, 1, sy, 1, 0); go(f, 2, 1, "f", 2, 1, 1, sy, 1, 0); go(f, 2, 2, "", 3, 2, 2, sy, 1, 0); go(f, 3, 1, "S", 2, 2, 1, sy, 1, 0); go(f, 2, 1, "", 2, 1, 1, sy, 0, 1); } for (auto& f : one) { go(f, 2, 1, "", 2, 1, 1, sy, 2, 0); go(f, 2, 1, "", 2, 1, 1, sy, 0, -1); go(f, 2, 1, "", 2, 1, 1, sy, 1, 2); go(f, 2, 1, "f", 2, 1, 1, sy, 1, 1); } } }
  // one schedule for many configurations
  for (auto& f : all) for (const char* o : {"", "s", "f", "sf", "S", "1", "s1", "f1", "sf1", "S1", "2", "f9", "sf9"}) for (bool sy : {false, true}) for (int th : {1, 2, 3}) for (int w : {2, 3}) for (int wt : {1, 2}) for (int bu : {1, 2, 4}) { if (f.n == 1 && *o == 's') continue; if (!T && (bu == 4 ? th != 3 || wt != 2 : bu == 2 ? th == 3 : th == 3 && wt == 1) || (!T && w == 3 && wt == 2 && bu == 1)) continue; go(f, th, bu == 4 ? 1 : bu, o, w, wt, bu, sy, 0, 0); }
  return vk::finish();
}
