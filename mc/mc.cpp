#include "mc.hpp"
#include <sys/single_threaded.h>
#include <mutex>
#include <link.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <unordered_map>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" void* __cxa_get_globals();
namespace mc {
  static const int MAXF = 24;
  typedef uint32_t Clk;
  struct VC { Clk c[MAXF]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXF; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
  static inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)); x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31; return x; }
  enum St { READY, LOCK, COND, JOIN, CUSTOM, YIELD, DONE };
  static const char* STN[] = {"ready", "waits for mutex", "waits on condition", "joins", "waits for", "polls", "done"};
  struct Fiber {
    void* once[2] = {nullptr, nullptr};
    int id; St st = READY; void* obj = nullptr; ucontext_t ctx; char* stack = nullptr; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    uint64_t h = 0; VC vc; uint64_t eh[2] = {0, 0}; int err = 0; bool signalled = false; void* cmutex = nullptr; std::function<bool()> ready; const char* what = ""; std::vector<void*> stk; bool joined = false; bool detached = false; uint64_t yielded_at = 0; bool timed = false;
  };
  struct Obj { uint64_t h = 0, hr = 0; VC vc; int owner = -1; uint64_t n = 0; std::vector<int> waiters; };
  struct SViol { char key[400]; char msg[3000]; char trace[3000]; uintptr_t pc1, pc2; };
  struct Shared {
    std::atomic<uint64_t> executions, points, pruned, states, truncated, maxthreads, maxpoints; std::atomic<int> running, capped, stop; std::atomic<uint64_t> counters[32];
    std::atomic<int> lock; int nviol; SViol v[48];
  };
  static const size_t VS = 1u << 23;
  struct Slot { std::atomic<uint64_t> h; std::atomic<int> budget; };
  static Shared* sh = nullptr; static Slot* visited = nullptr;
  static Config cfg; static bool act = false; static std::vector<Fiber*>* F = nullptr; static Fiber* cur = nullptr; static int budget = 0; static bool owns = false; static uint64_t steps = 0; static double deadline = 0;
  static std::unordered_map<void*, Obj>* objs = nullptr; static const std::function<void()>* body_ = nullptr;
  struct Choice { int n, pick; };
  static std::vector<int>* picks = nullptr; static std::vector<int>* script = nullptr; static size_t scriptpos = 0;
  static std::vector<std::pair<int, const char*>>* hist = nullptr; static std::function<void(int)>* exit_hook = nullptr; static int used = 0, freeused = 0;
  static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  struct Off { bool o; Off() : o(act) { act = false; } ~Off() { act = o; } };
  bool active() { return act; }
  int self() { return cur ? cur->id : -1; }
  int budget_used() { return used; }
  void counter(int i, uint64_t v) { if (sh) sh->counters[i] += v; }
  static uint64_t clockstep = 0, clockreads = 0, clockbase = 1600000000;
  void clock_step(uint64_t seconds) { clockstep = seconds; }
  void clock_base(uint64_t seconds) { clockbase = 1600000000 + seconds; }
  void set_exit_hook(std::function<void(int)> f) { Off o; exit_hook = new std::function<void(int)>(f); }
  static Obj& ob(void* p) { auto it = objs->find(p); if (it == objs->end()) { Obj& o = (*objs)[p]; o.h = mix(cur ? cur->h : 1, 77); return o; } return it->second; }
  std::string trace_text() {
    Off off; std::string s; for (int p : *picks) s += (s.empty() ? "" : ",") + std::to_string(p); s += "|"; size_t b = hist->size() > 70 ? hist->size() - 70 : 0; int last = -1;
    for (size_t i = b; i < hist->size(); ++i) { if ((*hist)[i].first != last) { s += " T" + std::to_string((*hist)[i].first) + ":"; last = (*hist)[i].first; } s += std::string((*hist)[i].second) + ","; }
    return s; }
  static void record(const std::string& key, const std::string& msg, uintptr_t p1 = 0, uintptr_t p2 = 0) {
    int e = 0; int spins = 0; while (!sh->lock.compare_exchange_strong(e, 1)) { e = 0; usleep(100); if (++spins > 20000) break; }
    bool dup = false; for (int i = 0; i < sh->nviol; ++i) if (key == sh->v[i].key && p1 == sh->v[i].pc1 && p2 == sh->v[i].pc2) dup = true;
    if (!dup && sh->nviol < 48) { SViol& v = sh->v[sh->nviol]; snprintf(v.key, sizeof v.key, "%s", key.c_str()); snprintf(v.msg, sizeof v.msg, "%s", msg.c_str()); snprintf(v.trace, sizeof v.trace, "%s", trace_text().c_str()); v.pc1 = p1; v.pc2 = p2; sh->nviol++; if (sh->nviol >= 40) sh->stop = 1; }
    sh->lock = 0; }
  [[noreturn]] static void leave() { if (owns) sh->running--; _exit(0); }
  static void fin() { sh->executions++; uint64_t m = sh->maxpoints; while (steps > m && !sh->maxpoints.compare_exchange_weak(m, steps)) {} }
  void report(const std::string& k, const std::string& m) { Off o; record(k, m); }
  void fail(const std::string& k, const std::string& m) { act = false; record(k, m); fin(); leave(); }
  void prune() { act = false; sh->pruned++; leave(); }
  void end_ok() { act = false; fin(); leave(); }
  static bool visit(uint64_t h, int b) { // false: already explored with at least this budget
    if (!cfg.cache) return true;
    if (!h) h = 1; size_t i = h & (VS - 1);
    for (int k = 0; k < 64; ++k, i = (i + 1) & (VS - 1)) {
      uint64_t e = visited[i].h.load();
      if (!e) { if (visited[i].h.compare_exchange_strong(e, h)) { visited[i].budget = b + 1; sh->states++; return true; } }
      if (e == h) { int o = visited[i].budget; while (o < b + 1) if (visited[i].budget.compare_exchange_weak(o, b + 1)) return true; return false; } }
    return true; }
  static void check_stop() { if (!sh->capped && deadline > 0 && now() > deadline) sh->capped = 1; }
  // Nondeterministic choice: alternatives in forked copies, this process takes option 0.
  static int branch(int n, const int* cost) {
    if (n <= 1) return 0;
    if (script) { int p = scriptpos < script->size() ? (*script)[scriptpos] : 0; ++scriptpos; if (p >= n) p = 0; picks->push_back(p); if (cost[p] > 0) { budget -= cost[p]; used += cost[p]; } return p; }
    check_stop();
    for (int i = n - 1; i >= 1; --i) {
      if (cost[i] > 0 && budget >= 0 && budget < cost[i]) continue;
      if (cost[i] == 0 && cfg.choice_bound >= 0 && freeused >= cfg.choice_bound) continue;
      if (sh->capped || sh->stop) { sh->truncated++; continue; }
      bool slot = sh->running.fetch_add(1) < cfg.jobs; if (!slot) sh->running--;
      pid_t p = fork();
      if (p < 0) { sh->truncated++; if (slot) sh->running--; sh->capped = 1; continue; }
      if (p == 0) { owns = slot; if (cost[i] > 0) { if (budget >= 0) budget -= cost[i]; used += cost[i]; } else ++freeused; picks->push_back(i); return i; }
      if (!slot) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    }
    picks->push_back(0); return 0; }
  int choose(int n, const char* what, int cost) { if (!act || n <= 1) return 0; Off o; std::vector<int> c(n, cost); c[0] = 0; int r = branch(n, c.data()); cur->h = mix(cur->h, 1000003 + r); hist->push_back({cur->id, what}); return r; }
  static bool enabled(Fiber* f) {
    switch (f->st) {
      case READY: return true;
      case LOCK: return ob(f->obj).owner < 0;
      case COND: return f->signalled && ob(f->cmutex).owner < 0;
      case JOIN: return (*F)[(size_t)f->obj]->st == DONE;
      case CUSTOM: return f->ready();
      case YIELD: return false;
      default: return false; } }
  static void swtch(Fiber* to) {
    if (to == cur) return;
    Fiber* from = cur; uint64_t* g = (uint64_t*)__cxa_get_globals(); from->eh[0] = g[0]; from->eh[1] = g[1]; from->err = errno; from->once[0] = std::__once_callable; from->once[1] = (void*)std::__once_call; g[0] = to->eh[0]; g[1] = to->eh[1]; cur = to; swapcontext(&from->ctx, &to->ctx); errno = cur->err; std::__once_callable = cur->once[0]; std::__once_call = (void (*)())cur->once[1]; }
  static uint64_t statehash() { uint64_t s = mix(cur->id, 99); for (Fiber* f : *F) s += mix(mix(f->h, f->id), f->st * 4 + f->signalled); return s; }
  static void deadlock() {
    std::string m = "no thread can continue:"; for (Fiber* f : *F) if (f->st != DONE) m += " T" + std::to_string(f->id) + " " + STN[f->st] + (f->st == CUSTOM ? std::string(" ") + f->what : "") + ";";
    fail("deadlock", m); }
  // Lets the scheduler decide who runs next; returns when cur is scheduled again and its operation is enabled.
  static void schedule() {
    ++steps; sh->points++; cur->h = mix(cur->h, 21); // every point of a thread is a state of its own
    if (steps > cfg.max_steps) fail("nontermination", "more than " + std::to_string(cfg.max_steps) + " synchronisation operations in one execution");
    std::vector<Fiber*> en; Fiber* me = cur; bool meok = enabled(me); if (meok) en.push_back(me);
    size_t n = F->size(); for (size_t k = 1; k <= n; ++k) { Fiber* f = (*F)[(me->id + k) % n]; if (f != me && f->st != DONE && enabled(f)) en.push_back(f); }
    if (en.empty()) { // pollers run when nothing else can; timed waits expire
      for (size_t k = 1; k <= n; ++k) { Fiber* f = (*F)[(me->id + k) % n]; if (f->st == YIELD) { en.push_back(f); } }
      if (en.empty()) for (size_t k = 1; k <= n; ++k) { Fiber* f = (*F)[(me->id + k) % n]; if (f->st == COND && f->timed && ob(f->cmutex).owner < 0) { en.push_back(f); break; } }
      if (en.empty()) deadlock(); }
    std::vector<int> cost(en.size(), 0); if (meok) for (size_t i = 1; i < en.size(); ++i) cost[i] = 1;
    std::vector<Fiber*> sp; if (cfg.spurious) for (Fiber* f : *F) if (f != me && f->st == COND && !f->signalled && ob(f->cmutex).owner < 0) { en.push_back(f); cost.push_back(1); }
    if (en.size() > 1 && !script) { if (!visit(cfg.choice_bound >= 0 ? mix(statehash(), 7001 + freeused) : statehash(), budget < 0 ? 0 : budget)) { prune(); } }
    int p = branch((int)en.size(), cost.data());
    Fiber* to = en[p];
    if (to->st == COND && !to->signalled) { Obj& c = ob(to->obj); c.waiters.erase(std::remove(c.waiters.begin(), c.waiters.end(), to->id), c.waiters.end()); to->h = mix(to->h, 4242); }
    // pollers get another chance once somebody else has done something
    for (Fiber* f : *F) if (f != to && f->st == YIELD) f->st = READY;
    if (to->st == YIELD || to->st == LOCK || to->st == JOIN || to->st == CUSTOM) { /* performed by the fiber itself */ }
    St old = to->st; if (old != COND) to->st = READY; else to->st = READY;
    swtch(to); }
  static void hit(const char* w) { hist->push_back({cur->id, w}); }
  static void conflict(Obj& o, uint64_t kind) { uint64_t x = mix(mix(cur->h, o.h), mix(o.hr, kind)); cur->h = x; o.h = mix(x, 5); o.hr = 0; }
  static void rd(Obj& o) { cur->h = mix(mix(cur->h, o.h), 3); o.hr += mix(cur->h, 4); }
  static void tick() { cur->vc.c[cur->id]++; }
  static void acquire(Obj& o) { cur->vc.join(o.vc); }
  static void release(Obj& o) { o.vc.join(cur->vc); tick(); }
  void point(const char* w, void* p) { if (!act) return; Off off; schedule(); hit(w); Obj& o = ob(p); acquire(o); conflict(o, 11); release(o); }
  void yield_point() { if (!act) return; Off off; cur->st = YIELD; schedule(); cur->st = READY; cur->h = mix(cur->h, 13); }
  void block_until(const std::function<bool()>& r, const char* w, void* p) { if (!act) return; Off off; cur->st = CUSTOM; cur->ready = r; cur->what = w; cur->obj = p; schedule(); cur->st = READY; cur->ready = nullptr; hit(w); Obj& o = ob(p); acquire(o); conflict(o, 12); release(o); }
  // ---- mutex, condition variables, threads
  static int m_lock(void* m) { Off off; cur->st = LOCK; cur->obj = m; schedule(); cur->st = READY; Obj& o = ob(m); hit("lock"); o.owner = cur->id; acquire(o); conflict(o, 1); return 0; }
  static int m_trylock(void* m) { Off off; schedule(); Obj& o = ob(m); hit("trylock"); conflict(o, 2); if (o.owner >= 0) return EBUSY; o.owner = cur->id; acquire(o); return 0; }
  static int m_unlock(void* m) { Off off; Obj& o = ob(m); hit("unlock"); if (o.owner != cur->id) fail("unlock-not-owner", "a mutex is unlocked by a thread that does not hold it"); o.owner = -1; conflict(o, 6); release(o); return 0; }
  static int c_wait(void* c, void* m, bool timed) {
    Off off; Obj& o = ob(c); hit("wait"); { Obj& mo = ob(m); if (mo.owner != cur->id) fail("wait-without-lock", "wait on a condition variable without holding the mutex"); mo.owner = -1; conflict(mo, 6); release(mo); }
    Obj& o2 = ob(c); conflict(o2, 7); o2.waiters.push_back(cur->id); cur->st = COND; cur->obj = c; cur->cmutex = m; cur->signalled = false; cur->timed = timed;
    schedule(); cur->st = READY; bool sig = cur->signalled; cur->signalled = false; hit("woken");
    Obj& o3 = ob(c); if (!sig) o3.waiters.erase(std::remove(o3.waiters.begin(), o3.waiters.end(), cur->id), o3.waiters.end());
    Obj& mo = ob(m); mo.owner = cur->id; acquire(mo); conflict(mo, 1); return sig || !timed ? 0 : ETIMEDOUT; }
  static int c_signal(void* c, bool all) {
    Off off; schedule(); Obj& o = ob(c); hit(all ? "notify_all" : "notify_one"); conflict(o, 8);
    if (all) { for (int w : o.waiters) (*F)[w]->signalled = true; o.waiters.clear(); }
    else if (!o.waiters.empty()) { int n = (int)o.waiters.size(); std::vector<int> cost(n, 0); int p = branch(n, cost.data()); Obj& o2 = ob(c); int w = o2.waiters[p]; o2.waiters.erase(o2.waiters.begin() + p); Fiber* f = (*F)[w]; f->signalled = true; f->h = mix(f->h, mix(cur->h, 9)); if (n > 1) cur->h = mix(cur->h, w); }
    return 0; }
  static void tramp() { act = true; Fiber* me = cur; void* r = me->fn(me->arg); act = false; me->ret = r; hit("exit"); me->st = DONE; me->h = mix(me->h, 14); schedule(); abort(); }
  static char* stack_alloc(size_t n);
  static int t_create(pthread_t* t, void* (*fn)(void*), void* arg) {
    Off off; Fiber* f = new Fiber; f->id = (int)F->size(); if (f->id >= MAXF) fail("too-many-threads", "more than " + std::to_string(MAXF) + " threads"); f->fn = fn; f->arg = arg; f->stack = stack_alloc(1 << 20); getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = 1 << 20; f->ctx.uc_link = nullptr; makecontext(&f->ctx, tramp, 0);
    f->vc = cur->vc; f->vc.c[f->id] = 1; tick(); f->h = mix(cur->h, 15 + f->id); cur->h = mix(cur->h, 16); F->push_back(f); hit("create"); uint64_t m = sh->maxthreads; while (F->size() > m && !sh->maxthreads.compare_exchange_weak(m, F->size())) {}
    *t = (pthread_t)(f->id + 1); schedule(); return 0; }
  static int t_join(pthread_t t, void** r) { Off off; size_t id = (size_t)t - 1; if (id >= F->size() || (int)id == cur->id) fail("bad-join", "join of an unknown thread"); cur->st = JOIN; cur->obj = (void*)id; schedule(); cur->st = READY; Fiber* f = (*F)[id]; hit("join"); cur->vc.join(f->vc); cur->h = mix(cur->h, f->h); f->joined = true; if (r) *r = f->ret; return 0; }
  // ---- race detector
  struct Acc { uint16_t tid; uint8_t mask; uint8_t w; Clk clk; uint32_t pc; uint32_t pad; };
  static const int NA = 6; struct Cell { Acc a[NA]; };
  static const uintptr_t PAGE = 1 << 12; struct SPage { Cell c[PAGE / 8]; };
  static std::unordered_map<uintptr_t, SPage*>* shadow = nullptr; static uintptr_t lastpg = 0; static SPage* lastp = nullptr; static bool racing = false; static std::set<std::pair<uint32_t, uint32_t>>* seen = nullptr;
  static char* arena = nullptr; static size_t arena_left = 0;
  static void* raw(size_t n) { if (n > arena_left) { size_t s = 16 << 20; arena = (char*)mmap(nullptr, s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena_left = s; } void* r = arena; arena += n; arena_left -= n; return r; }
  static SPage* page(uintptr_t a, bool make) { uintptr_t p = a / PAGE; if (p == lastpg && lastp) return lastp; auto it = shadow->find(p); SPage* s; if (it == shadow->end()) { if (!make) return nullptr; s = (SPage*)raw(sizeof(SPage)); (*shadow)[p] = s; } else s = it->second; lastpg = p; lastp = s; return s; }
  static void clear_range(void* p, size_t n) { if (!racing || !shadow) return; bool o = act; act = false; uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + n; while (a < e) { SPage* s = page(a, false); if (!s) { a = (a / PAGE + 1) * PAGE; continue; } memset(&s->c[(a % PAGE) / 8], 0, sizeof(Cell)); a += 8; } act = o; }
  // thread-local variables: one copy for all fibers, those of the C++ runtime are saved and restored at switches
  static uintptr_t tls_lo[32], tls_hi[32]; static int ntls = -1;
  static int tls_cb(struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && ntls < 32) { tls_lo[ntls] = (uintptr_t)i->dlpi_tls_data; tls_hi[ntls] = tls_lo[ntls] + i->dlpi_phdr[k].p_memsz; ++ntls; } return 0; }
  static bool is_tls(uintptr_t a) { for (int i = 0; i < ntls; ++i) if (a >= tls_lo[i] && a < tls_hi[i]) return true; return false; }
  static void access(void* p, size_t n, bool w, void* pc) {
    if (!act || !racing || is_tls((uintptr_t)p)) return; act = false; uintptr_t a = (uintptr_t)p, e = a + n; uint32_t q = (uint32_t)(uintptr_t)pc; Clk mine = cur->vc.c[cur->id];
    while (a < e) { uintptr_t b = a & ~7ul; int lo = a - b, hi = e - b > 8 ? 8 : (int)(e - b); uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo); Cell& c = page(b, true)->c[(b % PAGE) / 8]; int slot = -1, victim = -1;
      for (int i = 0; i < NA; ++i) { Acc& x = c.a[i]; if (!x.mask) { if (victim < 0 || c.a[victim].mask) victim = i; continue; }
        bool hb = x.clk <= cur->vc.c[x.tid];
        if (x.tid == cur->id) { if (x.mask == mask && x.w == w) slot = i; continue; }
        if (hb) { if (victim < 0) victim = i; continue; }
        if ((x.mask & mask) && (x.w || w)) { std::pair<uint32_t, uint32_t> k {std::min(x.pc, q), std::max(x.pc, q)}; if (seen->insert(k).second) { char m[200]; snprintf(m, sizeof m, "%s by T%d and %s by T%d without ordering at %p", x.w ? "write" : "read", x.tid, w ? "write" : "read", cur->id, p); record("race", m, k.first, k.second); } } }
      if (slot < 0) slot = victim >= 0 ? victim : (int)(mine % NA);
      c.a[slot] = {(uint16_t)cur->id, mask, (uint8_t)w, mine, q, 0}; a = b + 8; }
    act = true; }
  static char* stack_alloc(size_t n) { char* s = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); clear_range(s, n); return s; }
  // ---- atomics
  static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
  static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
  template<typename T, typename Fn> static inline T atomic(volatile T* p, int mo, bool load, const Fn& f) {
    if (!act) return f();
    Off off; if (mo == 5) { schedule(); hit(load ? "atomic-load" : "atomic"); }
    Obj& o = ob((void*)p); if (acq(mo)) acquire(o); if (mo == 5 || !load) { if (load) rd(o); else conflict(o, 17); } T r = f(); if (!load && rel(mo)) release(ob((void*)p)); return r; }
  // ---- running
  static char* altstk = nullptr;
  static void onsig(int s) { act = false; char m[100]; snprintf(m, sizeof m, "signal %d (%s)", s, s == SIGXCPU ? "CPU time exhausted: no progress" : strsignal(s)); record(s == SIGXCPU ? "nontermination-cpu" : "crash-signal" + std::to_string(s), m); fin(); leave(); }
  static void main_fiber() { __libc_single_threaded = 0; if (ntls < 0) { ntls = 0; dl_iterate_phdr(tls_cb, nullptr); } act = true; (*body_)(); act = false; std::string left; for (Fiber* f : *F) if (f->id && f->st != DONE) left += " T" + std::to_string(f->id); if (!left.empty()) { record("thread-leak", "threads still running at the end:" + left); } fin(); leave(); }
  static Result run(const Config& c, const std::function<void()>& body, std::vector<int>* scr) {
    cfg = c; body_ = &body; script = scr; scriptpos = 0; Result r;
    if (!sh) sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shared));
    if (!visited) visited = (Slot*)mmap(nullptr, VS * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    else madvise(visited, VS * sizeof(Slot), MADV_REMOVE);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    deadline = c.max_seconds > 0 ? now() + c.max_seconds : 0; fflush(nullptr);
    sh->running = 1; pid_t p = fork();
    if (p == 0) {
      owns = true; struct rlimit rl {(rlim_t)c.cpu_seconds, (rlim_t)c.cpu_seconds + 2}; setrlimit(RLIMIT_CPU, &rl); struct rlimit cl {0, 0}; setrlimit(RLIMIT_CORE, &cl);
      altstk = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU}) sigaction(s, &sa, nullptr);
      F = new std::vector<Fiber*>; objs = new std::unordered_map<void*, Obj>; picks = new std::vector<int>; hist = new std::vector<std::pair<int, const char*>>; shadow = new std::unordered_map<uintptr_t, SPage*>; seen = new std::set<std::pair<uint32_t, uint32_t>>; racing = c.races; budget = c.preemptions; steps = 0; used = 0; freeused = 0;
      Fiber* f = new Fiber; f->id = 0; f->vc.c[0] = 1; f->h = 12345; f->stack = stack_alloc(4 << 20); getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = 4 << 20; f->ctx.uc_link = nullptr; makecontext(&f->ctx, main_fiber, 0); F->push_back(f); cur = f;
      static ucontext_t base; swapcontext(&base, &f->ctx); _exit(3); }
    int st; bool bad = false; for (;;) { pid_t q = waitpid(-1, &st, 0); if (q < 0) { if (errno == EINTR) continue; break; } if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    r.executions = sh->executions; r.points = sh->points; r.pruned = sh->pruned; r.states = sh->states; r.truncated = sh->truncated; r.maxthreads = sh->maxthreads; r.maxpoints = sh->maxpoints; r.capped = sh->capped || sh->truncated; for (int i = 0; i < 32; ++i) r.counters[i] = sh->counters[i];
    if (bad) { sh->lock = 0; Violation v; v.key = "process-died"; v.msg = "a process of the exploration ended abnormally (status " + std::to_string(st) + ")"; r.violations.push_back(v); }
    std::set<std::string> keys;
    for (int i = 0; i < sh->nviol; ++i) { Violation v; v.key = sh->v[i].key; v.msg = sh->v[i].msg; v.trace = sh->v[i].trace;
      if (sh->v[i].pc1) { // symbolise
        std::string fn[2], where[2]; for (int k = 0; k < 2; ++k) { char cmd[300]; snprintf(cmd, sizeof cmd, "addr2line -f -i -C -e /proc/%d/exe 0x%lx", (int)getpid(), (unsigned long)((k ? sh->v[i].pc2 : sh->v[i].pc1) - 1)); FILE* f = popen(cmd, "r"); char a[4000], b[4000]; std::string all; if (f) { while (fgets(a, sizeof a, f) && fgets(b, sizeof b, f)) { a[strcspn(a, "\n")] = 0; b[strcspn(b, "\n")] = 0; bool mine = strstr(b, "/source/") || strstr(b, "/verif/") || (!c.race_filter.empty() && strstr(b, c.race_filter.c_str())); all += std::string(a).substr(0, 90) + "@" + (strrchr(b, '/') ? strrchr(b, '/') + 1 : b) + " < "; if (mine && fn[k].empty()) { std::string s = a; size_t par = s.find('('); if (par != std::string::npos) s = s.substr(0, par); fn[k] = s; where[k] = strrchr(b, '/') ? strrchr(b, '/') + 1 : b; } } pclose(f); } if (fn[k].empty()) { fn[k] = "?"; } where[k] = all.substr(0, 600); }
        if (fn[0] > fn[1]) { std::swap(fn[0], fn[1]); std::swap(where[0], where[1]); }
        v.key = "race:" + fn[0] + ":" + fn[1]; v.msg += " [" + where[0] + "] [" + where[1] + "]"; }
      if (keys.insert(v.key).second) r.violations.push_back(v); }
    if (!r.executions && r.violations.empty() && !r.capped) { Violation v; v.key = "nothing-explored"; v.msg = "no execution was completed"; r.violations.push_back(v); }
    return r; }
  Result explore(const Config& c, const std::function<void()>& body) { return run(c, body, nullptr); }
  Result replay(const Config& c, const std::function<void()>& body, const std::string& t) { auto* s = new std::vector<int>; const char* p = t.c_str(); while (*p && *p != '|') { s->push_back(atoi(p)); while (*p && *p != ',' && *p != '|') ++p; if (*p == ',') ++p; } return run(c, body, s); }
}
using namespace mc;
// ---- interposed functions
template<typename T> static T real(const char* n) { static_assert(sizeof(T) == sizeof(void*), ""); return (T)dlsym(RTLD_NEXT, n); }
extern "C" {
  int pthread_mutex_lock(pthread_mutex_t* m) { return act ? m_lock(m) : 0; }
  int pthread_mutex_trylock(pthread_mutex_t* m) { return act ? m_trylock(m) : 0; }
  int pthread_mutex_unlock(pthread_mutex_t* m) { return act ? m_unlock(m) : 0; }
  int pthread_mutex_destroy(pthread_mutex_t* m) { if (act) { Off o; auto it = objs->find(m); if (it != objs->end()) objs->erase(it); } return 0; }
  int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return act ? c_wait(c, m, false) : 0; }
  int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return act ? c_wait(c, m, true) : 0; }
  int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return act ? c_wait(c, m, true) : 0; }
  int pthread_cond_signal(pthread_cond_t* c) { return act ? c_signal(c, false) : 0; }
  int pthread_cond_broadcast(pthread_cond_t* c) { return act ? c_signal(c, true) : 0; }
  int pthread_cond_destroy(pthread_cond_t* c) { if (act) { Off o; auto it = objs->find(c); if (it != objs->end()) { if (!it->second.waiters.empty()) fail("cond-destroyed", "a condition variable is destroyed while threads wait on it"); objs->erase(it); } } return 0; }
  int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) { if (act) return t_create(t, fn, arg); return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(t, a, fn, arg); }
  int pthread_join(pthread_t t, void** r) { if (act) return t_join(t, r); return real<int (*)(pthread_t, void**)>("pthread_join")(t, r); }
  int pthread_detach(pthread_t t) { if (act) { (*F)[(size_t)t - 1]->detached = true; return 0; } return real<int (*)(pthread_t)>("pthread_detach")(t); }
  pthread_t pthread_self(void) { if (cur) return (pthread_t)(cur->id + 1); return 1; }
  int pthread_once(pthread_once_t* o, void (*f)(void)) { volatile pthread_once_t* v = o; if (act && *v == 1) block_until([v] { return *v != 1; }, "once", o); if (*v == 2) { if (act) { Off off; acquire(ob(o)); } return 0; } *v = 1; struct Done { volatile pthread_once_t* v; pthread_once_t* o; bool ok; ~Done() { *v = ok ? 2 : 0; if (act) { Off off; release(ob(o)); } } } d {v, o, false}; f(); d.ok = true; return 0; }
  int sched_yield(void) { if (act) yield_point(); return 0; }
  int nanosleep(const struct timespec* a, struct timespec* b) { if (act) { yield_point(); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
  int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (act) { yield_point(); return 0; } return (int)syscall(SYS_clock_nanosleep, c, f, a, b); }
  int usleep(useconds_t u) { if (act) { yield_point(); return 0; } struct timespec t {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
  time_t time(time_t* t) { if (act || cur) { if (t) *t = (time_t)clockbase; return (time_t)clockbase; } struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
  int clock_gettime(clockid_t c, struct timespec* s) { if (act || cur) { s->tv_sec = clockbase + clockreads * clockstep; s->tv_nsec = 0; ++clockreads; return 0; } return (int)syscall(SYS_clock_gettime, c, s); }
  void exit(int c) { if (act) { if (exit_hook) { (*exit_hook)(c); } if (cfg.exit_is_violation) fail("exit", "the code under test calls exit(" + std::to_string(c) + ")"); end_ok(); } fflush(nullptr); _exit(c); }
  int __cxa_guard_acquire(uint64_t* g) { if (*(volatile char*)g) { if (act) { Off o; acquire(ob(g)); } return 0; } if (act) { volatile char* busy = (char*)g + 1; if (*busy) { block_until([g] { return *((volatile char*)g + 1) == 0; }, "guard", g); if (*(volatile char*)g) return 0; } *busy = 1; } return 1; }
  void __cxa_guard_release(uint64_t* g) { *((volatile char*)g + 1) = 0; *(volatile char*)g = 1; if (act) { Off o; release(ob(g)); } }
  void __cxa_guard_abort(uint64_t* g) { *((volatile char*)g + 1) = 0; }
  // ---- tsan instrumentation interface
  void __tsan_init() {}
  void __tsan_func_entry(void*) {}
  void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, PC); } void __tsan_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); } void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); }
  void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
  // operations of libstdc++.so and libc, which are not instrumented
  void mc_access(void* a, size_t n, bool w, void* pc) { if (n) access(a, n, w, pc); }
  void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
  void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
  void __tsan_atomic_thread_fence(int) {}
  void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) { return atomic<T>((volatile T*)p, mo, true, [&] { return *p; }); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { atomic<T>(p, mo, false, [&] { *p = v; return v; }); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return atomic<T>(p, mo, false, [&] { T o = *p; *p = v; return o; }); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return atomic<T>(p, mo, false, [&] { T o = *p; *p = o + v; return o; }); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return atomic<T>(p, mo, false, [&] { T o = *p; *p = o - v; return o; }); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return atomic<T>(p, mo, false, [&] { T o = *p; *p = o & v; return o; }); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return atomic<T>(p, mo, false, [&] { T o = *p; *p = o | v; return o; }); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return atomic<T>(p, mo, false, [&] { T o = *p; *p = o ^ v; return o; }); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { return atomic<T>(p, mo, false, [&] { T o = *p; *p = ~(o & v); return o; }); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { return (int)atomic<T>(p, mo, false, [&] { if (*p == *e) { *p = v; return (T)1; } *e = *p; return (T)0; }); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { return (int)atomic<T>(p, mo, false, [&] { if (*p == *e) { *p = v; return (T)1; } *e = *p; return (T)0; }); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { return atomic<T>(p, mo, false, [&] { T o = *p; if (o == e) *p = v; return o; }); }
  AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
// std::future waits on a futex word
namespace std {
  struct __atomic_futex_unsigned_base { bool _M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds); bool _M_futex_wait_until_steady(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds); static void _M_futex_notify_all(unsigned*); };
  bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { if (act) block_until([a, v] { return *(volatile unsigned*)a != v; }, "future", a); return true; }
  bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { if (act) block_until([a, v] { return *(volatile unsigned*)a != v; }, "future", a); return true; }
  void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { if (act) { Off o; release(ob(a)); } }
}
// heap: a fresh block has no history
// memory which changes its owner starts without history, also that of C libraries
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
  void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && racing && cur) clear_range(p, n); return p; }
  void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && racing && cur) clear_range(p, a * b); return p; }
  void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p && racing && cur) clear_range(p, n); return p; } }
static void* mc_alloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (racing && cur) clear_range(p, n); return p; }
void* operator new(size_t n) { return mc_alloc(n); }
void* operator new[](size_t n) { return mc_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mc_alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
// ---- list and tree operations of libstdc++.so (not instrumented): the same code, visible to the race detector
#define PC2 __builtin_return_address(0)
#define RD(x) access((void*)&(x), 8, false, pc)
#define WR(x) access((void*)&(x), 8, true, pc)
#include <list>
#include <map>
namespace std { namespace __detail {
  void _List_node_base::_M_hook(_List_node_base* const p) noexcept { void* pc = PC2; WR(_M_next); WR(_M_prev); RD(p->_M_prev); WR(p->_M_prev->_M_next); WR(p->_M_prev); _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void _List_node_base::_M_unhook() noexcept { void* pc = PC2; RD(_M_next); RD(_M_prev); WR(_M_prev->_M_next); WR(_M_next->_M_prev); _List_node_base* const n = _M_next; _List_node_base* const q = _M_prev; q->_M_next = n; n->_M_prev = q; }
  void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { void* pc = PC2; if (this != l) { WR(l->_M_prev->_M_next); WR(f->_M_prev->_M_next); WR(_M_prev->_M_next); WR(_M_prev); WR(l->_M_prev); WR(f->_M_prev);
      l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
} }
extern "C" {
#ifdef MC_MEM
  extern char __executable_start, etext;
  static inline bool own(void* pc) { return (char*)pc >= &__executable_start && (char*)pc < &etext; } // memory used by other libraries only is not tracked: their allocations are not seen
  // block copies of instrumented code (compiled with -fno-builtin-memcpy and the like) and of libstdc++.so
  __attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memcpy(void* d, const void* s, size_t n) { if (act && racing && n) { void* pc = PC2; if (own(pc)) { access((void*)s, n, false, pc); access(d, n, true, pc); } } void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
  __attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memmove(void* d, const void* s, size_t n) { if (act && racing && n) { void* pc = PC2; if (own(pc)) { access((void*)s, n, false, pc); access(d, n, true, pc); } } char* a = (char*)d; const char* b = (const char*)s; if (a <= b || a >= b + n) { void* x = d; asm volatile("rep movsb" : "+D"(x), "+S"(s), "+c"(n) : : "memory"); } else { char* x = a + n - 1; const char* y = b + n - 1; asm volatile("std; rep movsb; cld" : "+D"(x), "+S"(y), "+c"(n) : : "memory"); } return d; }
  __attribute__((optimize("no-tree-loop-distribute-patterns"))) void* memset(void* d, int v, size_t n) { if (act && racing && n) { void* pc = PC2; if (own(pc)) access(d, n, true, pc); } void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
#endif
}
