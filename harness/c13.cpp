// C13: the contract of the black box, monitored in every schedule.
#include "sched.hpp"
using sched::Case; using namespace rec;
#define NOTSAN __attribute__((no_sanitize("thread")))
static struct Mon { int active = 0, told = 0; uint64_t p = 0; int n = 0, maxbunch = 1, items = 0; } mon;
NOTSAN static void begin(size_t args, int lanes) { if (!mon.told || mon.p != FFInt::p) mc::fail("not-told", "evaluation in a prime field which has not been announced by prime_changed"); if (args != (size_t)mon.n) mc::fail("arguments", "evaluation with " + std::to_string(args) + " values"); if (lanes > mon.maxbunch || (lanes & (lanes - 1))) mc::fail("bunch", "bunch of size " + std::to_string(lanes) + " with maximum " + std::to_string(mon.maxbunch)); ++mon.active; mc::counter(0); if (lanes > 1) mc::counter(1); if (mon.active > 1) mc::counter(2); }
NOTSAN static void end() { if (mon.p != FFInt::p) mc::fail("field-changed", "the prime field changes while an evaluation runs"); --mon.active; }
NOTSAN static void changed() { if (mon.active) mc::fail("prime-changed", "prime_changed is called while an evaluation runs"); if (mon.told && mon.p == FFInt::p) mc::counter(3); bool ok = false; for (uint64_t q : primes()) ok = ok || q == FFInt::p; if (!ok) mc::fail("prime", "prime_changed for a number that is not in the list of primes"); mon.told = 1; mon.p = FFInt::p; }
inline int lanes(const FFInt&) { return 1; } template<int N> int lanes(const FFIntVec<N>&) { return N; }
inline bool canon(const FFInt& x) { return x.n < FFInt::p; } template<int N> bool canon(const FFIntVec<N>& x) { for (auto& e : x.vec) if (e.n >= FFInt::p) return false; return true; }
class CB : public BlackBoxBase<CB> { public: BB b; CB(int n, const std::vector<std::string>& f) : b(n, f) {}
  void prime_changed() { changed(); mc::point("prime_changed", &mon); changed(); b.prime_changed(); }
  template<typename T> std::vector<T> operator()(const std::vector<T>& v) { begin(v.size(), lanes(v[0])); for (auto& x : v) if (!canon(x)) mc::fail("value", "a value is not an element of the prime field"); std::vector<T> c = v; mc::point("evaluation", &mon); for (size_t i = 0; i < c.size(); ++i) if (!(c[i] == v[i])) mc::fail("value", "a value changes while the evaluation runs"); auto r = b(v); end(); return r; } };
static void body() { const Case* cs = sched::cs(); mon = Mon(); mon.n = cs->n; mon.maxbunch = cs->o.bunch; CB bb(cs->n, cs->f); Reconstructor<CB> r(cs->n, cs->o.threads, cs->o.bunch, bb, 0); auto& o = cs->o; if (o.shift) r.enable_shift_scan(); if (o.factor) r.enable_factor_scan(); if (o.safe) r.set_safe_interpolation(); r.reconstruct(); check_all(r.get_result(), bb.b, !o.factor); }
typedef std::vector<std::string> V; struct F { int n; V f; };
static void go(const F& f, int th, int bu, const char* opt, int pre, int ch) { if (!vk::mine()) return; Case c; c.n = f.n; c.f = f.f; c.o.threads = th; c.o.bunch = bu; for (; *opt; ++opt) { if (*opt == 's') c.o.shift = 1; if (*opt == 'f') c.o.factor = 1; if (*opt == 'S') c.o.safe = 1; } c.pre = pre; c.ch = ch; sched::go(c, body, vk::thorough() ? 600 : 60, false); }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough(); Case c; if (sched::from_args(c)) { sched::go(c, body, 60, false); return vk::finish(); }
  std::vector<F> tiny = {{1, {"4/7"}}, {1, {"x"}}}, small = {{1, {"(1+x)/(2-x)"}}, {1, {"123456789123456789123456789/7*x+5"}}, {1, {"3", "1/x"}}}, two = {{2, {"x*y", "0"}}, {2, {"(1+x*y)/(x+3*y)", "x"}}, {2, {"123456789123456789123*x+y", "5"}}, {3, {"x*y+z"}}, {2, {"(x+y)^3/(1-x)"}}};
  for (auto& f : two) for (auto o : {"", "s", "S", "f"}) for (int bu : {1, 4, 8}) go(f, 2, bu, o, T ? 1 : bu == 4 ? 1 : 0, T ? 1 : bu == 4 ? 0 : 1);
  for (auto& f : small) for (int th : {1, 2}) for (int bu : {1, 2, 16}) go(f, th, bu, "", T ? 2 : 1, th == 1 ? -1 : 0);
  for (auto& f : tiny) for (int th : {1, 2, 3}) for (int bu : {1, 2, 128}) go(f, th, bu, "", th == 1 ? 2 : 1, th == 1 ? -1 : T ? 2 : 1);
  // one schedule for every thread count and bunch size
  for (auto& f : two) for (int th : {1, 2, 3, 4, 8}) for (int bu : {1, 2, 4, 8, 16, 32, 64, 128}) for (auto o : {"", "s", "f", "sf", "S"}) go(f, th, bu, o, 0, 0);
  return vk::finish();
}
