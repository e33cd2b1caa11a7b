// C20: interpolation objects driven through their public interface with every bounded deviation from the plain order of feeding.
#include "sched.hpp"
#include "firefly/RatReconst.hpp"
#include "firefly/PolyReconst.hpp"
#include "firefly/ReconstHelper.hpp"
using namespace rec;
typedef std::vector<uint32_t> Ord;
struct Probe { FFInt t, v; Ord o; uint32_t prime; };
static BB* bb; static bool safe_mode; static int first_ones, threads_mode;
struct Driver {
  int n; RatReconst r; std::map<Ord, uint32_t> started; std::map<Ord, std::set<uint64_t>> used; std::deque<Probe> pending, late; uint32_t prime = 0, due = 0; bool moved = false; uint64_t steps = 0;
  Driver(int n_) : n(n_), r(n_) { if (safe_mode) r.set_safe_interpolation(); }
  Probe make(const Ord& o) { FFInt t; do t = r.get_rand_64(); while (!used[o].insert(t.n).second); std::vector<FFInt> s = r.get_zi_shift_vec(), zi = r.get_rand_zi_vec(o), x(n); x[0] = t + s[0]; for (int i = 1; i < n; ++i) x[i] = zi[i - 1] * t + s[i]; return {t, (*bb)(x)[0], o, prime}; }
  void start(const Ord& o, uint32_t k) { started[o] += k; while (k--) pending.push_back(make(o)); }
  bool ones(const Ord& o) const { for (auto e : o) if (e != 1) return false; return (prime == 0 || safe_mode); }
  // the object has interpolated and is neither done nor waiting for the next prime: start what it needs
  void request() {
    if (prime != 0 && !safe_mode) { for (auto& p : r.get_needed_feed_vec()) if (p.second) { Ord o(n - 1, p.first); if (p.second > started[o]) start(o, p.second - started[o]); } return; }
    auto z = r.get_zi_orders(); if (z.first.size() == 1 && ones(z.first[0].first)) { if (pending_of(z.first[0].first) == 0) start(z.first[0].first, 1); return; }
    for (auto& e : z.first) { auto it = started.find(e.first); if (it == started.end()) start(e.first, e.second); else if (z.second > it->second) start(e.first, std::min(z.second - it->second, e.second)); } }
  int pending_of(const Ord& o) const { int k = 0; for (auto& p : pending) k += p.o == o; return k; }
  void result(const std::tuple<bool, bool, uint32_t>& t) { if (!std::get<0>(t)) return; if (std::get<1>(t)) return; if (std::get<2>(t) > prime) { moved = true; return; } request(); }
  void interpolate() { if (due) --due; result(r.interpolate()); }
  void feed(size_t i) { Probe p = pending[i]; pending.erase(pending.begin() + i); auto f = r.feed(p.t, p.v, p.o, p.prime); note(f); }
  void feed_many(size_t k) { std::vector<FFInt> t, v; std::vector<Ord> o; for (size_t i = 0; i < k; ++i) { t.push_back(pending[0].t); v.push_back(pending[0].v); o.push_back(pending[0].o); pending.pop_front(); } note(r.feed(t, v, o, prime)); }
  void note(const std::pair<bool, bool>& f) { if (f.first) ++due; if (f.second) mc::fail("write", "the object asks to write probes to a file although no state is saved"); }
  void next_prime() {
    late = pending; pending.clear(); ++prime; moved = false; due = 0; started.clear(); used.clear(); FFInt::set_new_prime(primes()[prime]); bb->prime_changed(); r.generate_anchor_points(); if (safe_mode ? false : !r.need_shift(prime)) r.disable_shift(); uint32_t k = r.get_num_eqn(); start(Ord(n - 1, 1), std::max(1u, std::min(k, (uint32_t)first_ones))); }
  void surplus(uint32_t k) { Ord o(n - 1, k); started[o] += 1; Probe p = make(o); note(r.feed(p.t, p.v, p.o, p.prime)); }
  void surplus1() { Ord o(n - 1, 1); if (n > 1) o[0] = 2; started[o] += 1; Probe p = make(o); note(r.feed(p.t, p.v, p.o, p.prime)); }
  void run() {
    start(Ord(n - 1, 1), first_ones);
    for (;;) {
      if (++steps > 3000) mc::fail("endless", "no end after 3000 steps");
      if (r.is_done() && !due) break;
      if (moved && !due) { if (r.get_prime() <= prime) mc::fail("prime", "the object reported a higher prime than it has"); next_prime(); continue; }
      if (pending.empty() && !due) { auto t = r.interpolate(); if (std::get<0>(t)) { result(t); continue; } mc::fail("stuck", "the object is not done, but asks for nothing (prime field " + std::to_string(prime + 1) + ", after " + std::to_string(steps) + " steps)"); }
      switch (mc::choose(12, "step")) {
        case 1: if (pending.size() < 2) mc::prune(); feed(pending.size() - 1); break;
        case 2: if (pending.size() < 3) mc::prune(); feed(pending.size() / 2); break;
        case 3: if (pending.size() < 2) mc::prune(); feed_many(2); break;
        case 4: if (pending.size() < 3) mc::prune(); feed_many(pending.size()); break;
        case 5: if (!due || pending.empty()) mc::prune(); feed(0); break;
        case 6: if (due) mc::prune(); result(r.interpolate()); break;
        case 7: surplus(1); break;
        case 8: if (n == 1) mc::prune(); surplus(2); break;
        case 9: if (n == 1) mc::prune(); surplus(3); break;
        case 10: if (n < 3) mc::prune(); surplus1(); break;
        // a late probe of an older prime field
        case 11: { if (!prime) mc::prune(); Probe p = late.empty() ? Probe{FFInt(5), FFInt(0), Ord(n - 1, 1), prime - 1} : late.front(); if (!late.empty()) late.pop_front(); note(r.feed(p.t, p.v, p.o, p.prime)); break; }
        default: if (due) interpolate(); else feed(0); }
      if (pending.empty() && !due && !r.is_done() && !moved && r.get_prime() > prime) moved = true;
    }
    check(); }
  void check() {
    for (int k = 0; k < 2; ++k) {
      if (!r.is_done() || r.is_new_prime()) mc::fail("done", "the object is not done any more");
      std::string e = compare(r.get_result(), bb->fs[0], n, true); if (!e.empty()) mc::fail("result", e);
      // probes arriving late change nothing
      while (!pending.empty()) { Probe p = pending.front(); pending.pop_front(); if (r.feed(p.t, p.v, p.o, p.prime).first) mc::fail("asks", "the object asks for an interpolation after it is done"); }
      auto t = r.interpolate(); if (!std::get<1>(t)) mc::fail("done", "interpolate() reports that the object is not done"); for (auto& p : r.get_needed_feed_vec()) if (p.second) mc::fail("asks", "the object asks for probes after it is done"); } }
  // one thread interpolates while this one keeps feeding
  void run_threads() {
    start(Ord(n - 1, 1), first_ones);
    for (;;) {
      if (++steps > 3000) mc::fail("endless", "no end after 3000 steps"); if (r.is_done()) break;
      if (r.get_prime() > prime) { next_prime(); continue; }
      if (pending.empty()) { result(r.interpolate()); if (r.is_done()) break; if (r.get_prime() > prime) continue; if (pending.empty()) mc::fail("stuck", "the object is not done, but asks for nothing (prime field " + std::to_string(prime + 1) + ")"); }
      feed(0); if (!due) continue;
      std::tuple<bool, bool, uint32_t> res; --due; std::thread t([&] { res = r.interpolate(); }); while (!pending.empty()) feed(0); t.join(); result(res); while (due) interpolate(); }
    check(); }
};
static const sched::Case* setup() { const sched::Case* c = sched::cs(); FFInt::set_new_prime(primes()[0]); BaseReconst().set_seed(12345); static BB* b; b = new BB(c->n, c->f); bb = b; return c; }
static void rat() { auto c = setup(); RatReconst::reset(); Driver d(c->n); if (threads_mode) d.run_threads(); else d.run(); }
// ---- polynomials: the object uses only probes of the order it asks for
static int poly_deg; static bool poly_newton, poly_bt;
static void poly() {
  auto c = setup(); PolyReconst::reset(); PolyReconst r(c->n, poly_deg); r.set_newton(poly_newton); r.set_bt(poly_bt); r.generate_anchor_points(); uint32_t prime = 0; uint64_t steps = 0;
  auto val = [&](const Ord& o) { return (*bb)(r.get_rand_zi_vec(o))[0]; };
  while (!r.is_done()) {
    if (++steps > 2000) mc::fail("endless", "no end after 2000 steps");
    if (r.get_prime() > prime) { if (r.get_prime() != prime + 1 || !r.is_new_prime()) mc::fail("prime", "unexpected prime counter"); ++prime; FFInt::set_new_prime(primes()[prime]); bb->prime_changed(); r.generate_anchor_points(); }
    Ord o = r.get_zi_order(); if (o.size() != (size_t)c->n) mc::fail("order", "the requested order has " + std::to_string(o.size()) + " entries"); 
    auto other = [&](int k) { Ord q = o; if (k == 0) for (auto& e : q) e += 1; else if (k == 1) q[0] += 1; else q.back() += 1; return q; };
    bool step = true;
    switch (mc::choose(9, "step")) {
      case 1: r.feed(val(other(0)), other(0), prime); break;                      // surplus probes before the one asked for
      case 2: r.feed(val(other(1)), other(1), prime); break;
      case 3: r.feed(val(other(2)), other(2), prime); break;
      case 4: r.feed(FFInt(0), o, prime ? prime - 1 : 7); break;                  // stale probe
      case 5: r.interpolate(); break;                                             // nothing to do
      case 6: r.feed(val(o), o, prime); r.feed(val(other(0)), other(0), prime); step = false; r.interpolate(); break;
      case 7: r.feed(val(o), o, prime); r.feed(val(other(1)), other(1), prime); step = false; r.interpolate(); break; // the next order may be among the queued ones
      case 8: r.feed(val(o), o, prime); { Ord q = o; q.back() += 1; r.feed(val(q), q, prime); q.back() += 1; r.feed(val(q), q, prime); } step = false; r.interpolate(); break; }
    if (step) { r.feed(val(o), o, prime); r.interpolate(); } }
  for (int k = 0; k < 2; ++k) { ex::Rat got = ex::parse(r.get_result().to_string(vars(c->n)), vars(c->n)); if (!ex::equal(got, bb->fs[0])) mc::fail("result", "wrong polynomial: " + r.get_result().to_string(vars(c->n))); r.feed(FFInt(3), r.get_zi_order(), r.get_prime()); r.interpolate(); if (!r.is_done() || r.is_new_prime()) mc::fail("done", "the object is not done any more"); }
}
static void go(const std::function<void()>& body, int n, const std::string& f, const std::string& extra, int pre, int ch, double secs, bool races) {
  sched::Case c; c.n = n; c.f = {f}; c.pre = pre; c.ch = ch; c.extra = extra; sched::cs() = &c; mc::Config m; m.preemptions = pre; m.choice_bound = ch; m.races = races; m.cache = races; m.race_filter = "firefly"; m.jobs = 1; m.max_seconds = secs; m.cpu_seconds = 60; m.max_steps = 400000;
  std::string nm = std::to_string(n) + " variables" + extra + ", preemptions " + std::to_string(pre) + ", deviations " + std::to_string(ch) + ": " + f; vk::cur(nm); vk::sample(nm); auto t0 = std::chrono::steady_clock::now(); mc::Result r = mc::explore(m, body);
  vk::count("histories", r.executions - r.truncated); vk::count("pruned", r.pruned); vk::count("transitions", r.points); vk::count("configurations"); vk::eval(r.executions); vk::nontrivial(r.executions); if (r.capped) vk::count("capped_configurations");
  if (getenv("VK_DEBUG")) fprintf(stderr, "%s: %lu executions %lu pruned %s %.1fs\n", nm.c_str(), r.executions, r.pruned, r.capped ? "CAPPED" : "", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
  for (auto& v : r.violations) vk::violation(v.key + ": " + nm, v.msg + " (" + nm + ")", nm, v.trace.substr(0, 1500)); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough(); double S = T ? 600 : 120;
  struct F { int n; const char* f; };
  const std::vector<F> rats = {{1, "3/7"}, {1, "x/(x^2+1)"}, {1, "(x^3-5)/(2*x+7)"}, {1, "0"}, {1, "123456789123456789123456789123456789/7*x^2+3"}, {2, "x"}, {2, "1/y"}, {2, "x/y"}, {2, "7/3"}, {2, "0"}, {2, "1/(x+y)"}, {2, "(x+y)/(x-y)"}, {2, "x*y+1"}, {2, "(x^2+3*y)/(x*y-5)"}, {2, "123456789123456789123456789/5*x*y+y^2"}, {2, "(x^2*y-1)/(y^2+x)"}, {2, "x^3*y+x*y^3"}, {2, "y/(1+123456789123456789123456789123456789*x)"}, {3, "x*y*z"}, {3, "(x+y)/(z-1)"}, {3, "x/(y+z)"}, {3, "x*y+z^2+1"}, {3, "1/(x*y*z+1)"}, {3, "(x+2*y+3*z)/(x*y*z)"}, {3, "123456789123456789123456789*x*y/(z+1)"}};
  const std::vector<F> small = {{1, "3/7"}, {1, "x/(x+1)"}, {2, "x"}, {2, "x/y"}, {2, "1/(x+y)"}, {2, "x*y+1"}, {1, "123456789123456789123456789*x"}, {2, "123456789123456789123456789/5*y"}, {2, "0"}, {3, "x*z"}};
  for (int sm : {0, 1}) for (int fo : {1, 3}) { for (auto& f : rats) { if (!vk::mine()) continue; safe_mode = sm; first_ones = fo; threads_mode = 0; go(rat, f.n, f.f, std::string(sm ? ", safe" : "") + ", " + std::to_string(fo) + " first probes", 0, T ? 2 : 1, S, false); }
    if (!T) for (auto& f : small) { if (!vk::mine()) continue; safe_mode = sm; first_ones = fo; threads_mode = 0; go(rat, f.n, f.f, std::string(sm ? ", safe" : "") + ", " + std::to_string(fo) + " first probes", 0, 2, S, false); }
    for (auto& f : small) { if (!vk::mine()) continue; safe_mode = sm; first_ones = fo; threads_mode = 1; go(rat, f.n, f.f, std::string(sm ? ", safe" : "") + ", " + std::to_string(fo) + " first probes, interpolation in a thread", T ? 2 : 1, 0, S, true); } }
  const std::vector<F> polys = {{1, "x"}, {1, "5"}, {1, "x^4-3/7*x"}, {1, "123456789123456789123456789123456789*x^2+1"}, {2, "x+y"}, {2, "x^2*y-7/5*x*y^2+1"}, {2, "123456789123456789123456789*x*y+3*y^3"}, {2, "y^3"}, {2, "(x+y)^3"}, {3, "x*y*z"}, {3, "(x+y+z)^2"}, {3, "x^2*z+123456789123456789123456789/11*y-1"}};
  for (auto& f : polys) for (int d : {-1, 0, 1}) for (int mode = 1; mode < 4; ++mode) { if (!vk::mine()) continue; BB* b; FFInt::set_new_prime(primes()[0]); b = new BB(f.n, {f.f}); uint32_t td = 0; for (auto& m : b->fs[0].n.c) { uint32_t s = 0; for (auto e : m.first) s += e; td = std::max(td, s); } delete b; poly_deg = d < 0 ? -1 : (int)td + d; poly_newton = mode & 1; poly_bt = mode & 2; go(poly, f.n, f.f, std::string(", polynomial, degree ") + std::to_string(poly_deg) + (poly_newton ? ", Newton" : "") + (poly_bt ? ", Ben-Or/Tiwari" : ""), 0, T ? 2 : 1, S, false); }
  return vk::finish();
}
