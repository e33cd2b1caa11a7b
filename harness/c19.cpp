// C19: every polling history of the early results, between runs, from a polling thread in every schedule, and after the end.
#include "sched.hpp"
#include <atomic>
using sched::Case; using namespace rec;
#define NOTSAN __attribute__((no_sanitize("thread")))
// which functions have been handed out
static void early(const std::vector<std::pair<std::string, RationalFunction>>& e, const BB& bb, std::vector<int>& seen, const std::vector<std::string>& tags) {
  for (auto& x : e) { size_t i = tags.size(); for (size_t k = 0; k < tags.size(); ++k) if (tags[k] == x.first) i = k; if (i == tags.size()) mc::fail("early-name", "an early result has the name " + x.first); if (seen[i]++) mc::fail("early-twice", "function " + std::to_string(i + 1) + " is handed out twice"); std::string s = compare(x.second, bb.fs[i], bb.n, false); if (!s.empty()) mc::fail("early-value", "early result " + std::to_string(i + 1) + ": " + s); mc::counter(0); } }
static void rest(const std::vector<RationalFunction>& r, const BB& bb, const std::vector<int>& seen, bool all) {
  size_t k = 0; for (size_t i = 0; i < seen.size(); ++i) if (!seen[i]) { if (k == r.size()) { if (all) mc::fail("missing", "function " + std::to_string(i + 1) + " is neither an early nor a final result"); return; } std::string s = compare(r[k++], bb.fs[i], bb.n, false); if (!s.empty()) mc::fail("final-value", "final result " + std::to_string(k) + " (function " + std::to_string(i + 1) + "): " + s); }
  if (k != r.size()) mc::fail("surplus", "the final result contains functions which have been handed out before"); }
static std::vector<std::string> names(size_t n) { std::vector<std::string> r; for (size_t i = 0; i < n; ++i) r.push_back(std::to_string(i)); return r; }
static uint64_t history; static int cut;
// mode 0: the results are polled in prime_changed number k if bit k of the history is set, and after the end if bit 5 is set; the run ends after cut prime fields
class PB : public BlackBoxBase<PB> { public: BB b; std::function<void(int)> poll; int k = 0; PB(int n, const std::vector<std::string>& f) : b(n, f) {}
  void prime_changed() { b.prime_changed(); if (poll) poll(k++); }
  template<typename T> std::vector<T> operator()(const std::vector<T>& v) { return b(v); } };
static void runs() { const Case* cs = sched::cs(); PB bb(cs->n, cs->f); Reconstructor<PB> r(cs->n, cs->o.threads, cs->o.bunch, bb, 0); auto& o = cs->o; if (o.shift) r.enable_shift_scan(); if (o.factor) r.enable_factor_scan(); if (o.safe) r.set_safe_interpolation(); std::vector<int> seen(cs->f.size()); auto tags = names(cs->f.size());
  bb.poll = [&](int k) { if (k < 5 && (history >> k & 1)) early(r.get_early_results(), bb.b, seen, tags); };
  r.reconstruct(cut); bb.poll = nullptr;
  if (history >> 5 & 1) { auto fin = r.get_result(); auto e = r.get_early_results(); if (e.size() != fin.size()) mc::fail("missing", "after the end " + std::to_string(e.size()) + " instead of " + std::to_string(fin.size()) + " functions are early results"); early(e, bb.b, seen, tags); if (cut == 300) for (int s : seen) if (!s) mc::fail("missing", "a function is not among the early results after the end"); if (!r.get_early_results().empty() || !r.get_result().empty()) mc::fail("early-twice", "a second poll after the end returns functions"); }
  else if (cut == 300) rest(r.get_result(), bb.b, seen, true);
  else { auto res = r.get_result(); size_t i = 0; for (auto& x : res) { while (i < seen.size() && (seen[i] || !compare(x, bb.b.fs[i], bb.b.n, false).empty())) ++i; if (i++ >= seen.size()) mc::fail("final-value", "a result of the unfinished run is wrong or in the wrong place: " + x.to_string(vars(bb.b.n)).substr(0, 200)); } } }
// mode 1: a thread polls while the reconstruction runs
static void thread() { const Case* cs = sched::cs(); BB bb(cs->n, cs->f); Reconstructor<BB> r(cs->n, cs->o.threads, cs->o.bunch, bb, 0); options(r, cs->o); std::vector<int> seen(cs->f.size()); auto tags = names(cs->f.size()); std::vector<std::vector<std::pair<std::string, RationalFunction>>> got;
  { std::thread t([&] { for (int i = 0; i < cs->mode; ++i) { if (i) std::this_thread::yield(); got.push_back(r.get_early_results()); } }); r.reconstruct(); t.join(); }
  for (auto& g : got) early(g, bb, seen, tags); if (history & 1) early(r.get_early_results(), bb, seen, tags); rest(r.get_result(), bb, seen, true); }
typedef std::vector<std::string> V; struct F { int n; V f; };
static Case mk(const F& f, int th, int bu, const char* opt, int pre, int ch) { Case c; c.n = f.n; c.f = f.f; c.o.threads = th; c.o.bunch = bu; for (; *opt; ++opt) { if (*opt == 's') c.o.shift = 1; if (*opt == 'f') c.o.factor = 1; if (*opt == 'S') c.o.safe = 1; } c.pre = pre; c.ch = ch; return c; }
static void hist(const F& f, int th, int bu, const char* opt) { for (int ct : {300, 1, 2, 3}) for (history = 0; history < 64; ++history) { if ((ct < 300 && (history & 31) >> ct) || !vk::mine()) continue; cut = ct; Case c = mk(f, th, bu, opt, 0, 0); sched::cs() = &c; std::string nm = std::to_string(c.n) + " variables, " + c.o.text() + ", polls " + std::to_string(history) + (cut < 300 ? " in " + std::to_string(cut) + " prime fields" : "") + ": "; for (auto& s : c.f) nm += s + "; "; vk::sample(nm); one(nm, runs); } }
static void poll(const F& f, int th, int bu, const char* opt, int pre, int ch, int polls, int after) { if (!vk::mine()) return; Case c = mk(f, th, bu, opt, pre, ch); c.mode = polls; history = after; c.extra = ", " + std::to_string(polls) + " concurrent polls" + (after ? " and one afterwards" : ""); sched::go(c, thread, vk::thorough() ? 600 : 60); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough(); Case c; if (sched::from_args(c)) { c.extra = " polls"; history = 1; sched::go(c, thread, 60); return vk::finish(); }
  const std::string h1 = "123456789123456789*x+y", h2 = "123456789123456789123456789123456789/7*x*y+1", h3 = "x/(y+1234567891234567891234567891234567891234567891234567)";
  std::vector<F> sets = {{2, {"x+y", h1, h2}}, {2, {h2, "x*y", "0", h1}}, {2, {"(x+1)/(y-2)", h3, "x^2*(y+1)", h2}}, {1, {"x", "0", "123456789123456789123456789123/5*x^2+1"}}, {2, {h3, h2, h1, "7"}}, {3, {"x*y*z", "123456789123456789123456789123/5*x*z+y", "(x+1)*(y+2)/(z-3)"}}};
  std::vector<F> tiny = {{1, {"x", "123456789123456789123456789/7*x"}}, {1, {"4/7", "0"}}, {1, {"1/x"}}, {2, {"x*y", "123456789123456789123*x"}}};
  for (auto& f : tiny) { poll(f, 1, 1, "", 1, T ? 1 : 0, 1, 0); poll(f, 1, 1, "", 1, T ? 1 : 0, 2, 1); poll(f, 2, 2, "", 1, 0, 1, 1); if (T) { poll(f, 2, 1, "", 1, 0, 2, 1); poll(f, 1, 1, "", 2, 0, 1, 0); } }
  poll(tiny[3], 1, 1, "f", 1, 0, 2, 1); poll(tiny[3], 1, 1, "s", 1, 0, 1, 1); poll({2, {"x*(y+1)", "123456789123456789123*x+y"}}, 1, 2, "f", 1, 0, 2, 0);
  for (auto& f : sets) for (int th : {1, 2}) for (auto o : {"", "s", "f", "sf", "S", "fS"}) { hist(f, th, 1, o); hist(f, th, 8, o); }
  return vk::finish();
}
