// C10: every interleaving of short client scripts on the real ThreadPool.
#include "vk.hpp"
#include "../mc/mc.hpp"
#include "firefly/ThreadPool.hpp"
#include <memory>
#include <algorithm>
#define NOTSAN __attribute__((no_sanitize("thread")))
using namespace firefly;
struct T { bool prio = false, pack = false, nested = false; int count = 0; int order = -1; bool running = false; bool killable = false; bool dead = false; int ahead = -1; int data = 0; };
static T ts[32]; static int nt, started, poolsize;
static ThreadPool* pool;
NOTSAN static void begin(int i) { T& t = ts[i]; if (t.dead) mc::fail("ran-after-kill", "a task runs although kill_all dropped it"); if (++t.count > 1) mc::fail("ran-twice", "a task runs twice"); t.running = true; t.order = started++; if (mc::self() == 0 && poolsize) mc::fail("ran-on-client", "a task runs on the client thread");
  // at most poolsize ordinary tasks that were queued when a priority task was accepted may start before it
  if (t.prio && t.ahead >= 0) { int n = 0; for (int k = 0; k < nt; ++k) if (k < i && !ts[k].prio && ts[k].order >= t.ahead && k != i) ++n; if (n > poolsize) mc::fail("priority", "ordinary tasks are taken before a priority task"); } }
NOTSAN static void end(int i) { ts[i].running = false; }
NOTSAN static int fresh(bool prio, bool pack, bool nested) { int i = nt++; ts[i] = T(); ts[i].prio = prio; ts[i].pack = pack; ts[i].nested = nested; return i; }
NOTSAN static void accepted(int i) { ts[i].ahead = started; }
NOTSAN static void killed_begin(int upto) { for (int k = 0; k < upto; ++k) ts[k].killable = true; }
NOTSAN static void killed_end(int upto) { for (int k = 0; k < upto; ++k) { if (ts[k].running) mc::fail("kill-running", "kill_all returns while a task is running"); if (!ts[k].count) ts[k].dead = true; } }
NOTSAN static void all_done(const char* when) { for (int k = 0; k < nt; ++k) { if (ts[k].running) mc::fail(std::string("running-after-") + when, std::string(when) + " returned while a task is running"); if (!ts[k].count && !ts[k].dead && !ts[k].killable) mc::fail(std::string("lost-after-") + when, std::string(when) + " returned although an accepted task has not been run"); } }
NOTSAN static int total() { return nt; }
NOTSAN static int ran(int i) { return ts[i].count; }
NOTSAN static bool killable(int i) { return ts[i].killable; }
static void task(int i) { begin(i); ts[i].data += 1; if (ts[i].nested) { int c = fresh(false, false, false); pool->run_task([c]() { task(c); }); accepted(c); } end(i); }
static std::string script;
static void body() {
  nt = 0; started = 0; std::vector<std::pair<int, std::future<int>>> futs; int before = 0;
  { ThreadPool p(poolsize); pool = &p; if (p.size() != (size_t)poolsize) mc::fail("size", "size() is wrong");
    for (char o : script) switch (o) {
      case 'R': { int i = fresh(false, false, false); p.run_task([i]() { task(i); }); accepted(i); break; }
      case 'P': { int i = fresh(true, false, false); p.run_priority_task([i]() { task(i); }); accepted(i); break; }
      case 'N': { int i = fresh(false, false, true); p.run_task([i]() { task(i); }); accepted(i); break; }
      case 'F': { int i = fresh(false, true, false); futs.emplace_back(i, p.run_packaged_task([i]() { task(i); return i + 100; })); accepted(i); break; }
      case 'Q': { int i = fresh(true, true, false); futs.emplace_back(i, p.run_priority_packaged_task([i]() { task(i); return i + 100; })); accepted(i); break; }
      case 'X': { int i = fresh(false, true, false); auto f = p.run_packaged_task([i]() -> int { begin(i); end(i); throw std::runtime_error("x"); }); accepted(i); bool c = false; try { f.get(); } catch (const std::runtime_error&) { c = true; } catch (...) {} if (!c) mc::fail("exception", "an exception of a packaged task is not delivered"); break; }
      case 'G': for (auto& f : futs) if (f.second.valid() && !killable(f.first)) { int v = f.second.get(); if (v != f.first + 100 || ran(f.first) != 1) mc::fail("future", "a future has a wrong value"); ts[f.first].data += 1; } break;
      case 'W': while (p.wait()) {} all_done("wait"); for (int k = 0; k < nt; ++k) if (!killable(k)) ts[k].data += 1; if (p.queue_size() != 0) mc::fail("queue", "tasks are queued after wait"); break;
      case 'w': p.wait(); break;
      case 'S': if (p.queue_size() > (size_t)nt) mc::fail("queue", "queue_size is wrong"); break;
      case 'K': { int n = nt; killed_begin(n); p.kill_all(); n = total(); killed_begin(n); killed_end(n); for (int k = 0; k < n; ++k) ts[k].data += 1; if (p.queue_size() != 0) mc::fail("queue-after-kill", "tasks are queued after kill_all"); break; } }
    before = nt; }
  (void)before; pool = nullptr; all_done("the destructor"); for (int k = 0; k < nt; ++k) ts[k].data += 1;
  for (auto& f : futs) if (f.second.valid()) { bool ok; try { int v = f.second.get(); ok = v == f.first + 100 && ran(f.first) == 1; } catch (const std::future_error&) { ok = killable(f.first) && ran(f.first) == 0; } if (!ok) mc::fail("future", "a future has no or a wrong value"); }
}
static void explore(int ps, const std::string& s, int pre, bool spurious) {
  poolsize = ps; script = s; mc::Config c; c.preemptions = pre; c.spurious = spurious; c.race_filter = "firefly"; c.max_seconds = vk::thorough() ? 200 : 40; c.jobs = 2; c.max_steps = 3000; c.cpu_seconds = 20;
  std::string nm = "pool of " + std::to_string(ps) + ", script " + s + ", preemptions " + std::to_string(pre); vk::cur(nm);
  mc::Result r = mc::explore(c, body);
  vk::count("schedules", r.executions); vk::count("pruned", r.pruned); vk::count("transitions", r.points); vk::count("states", r.states); vk::count("configurations"); vk::eval(r.executions); vk::nontrivial(r.executions);
  if (r.capped) vk::count("capped_configurations");
  for (auto& v : r.violations) vk::violation(v.key, v.msg + " (" + nm + ")", nm, v.trace);
}
int main(int argc, char** argv) {
  vk::init(argc, argv); if (!freopen("/dev/null", "w", stderr)) return 1; bool T = vk::thorough();
  if (vk::st().args.size() > 2) { poolsize = atoi(vk::st().args[0].c_str()); script = vk::st().args[1]; mc::Config c; c.preemptions = -1; auto r = mc::replay(c, body, vk::st().args[2]); for (auto& v : r.violations) printf("%s: %s\n%s\n", v.key.c_str(), v.msg.c_str(), v.trace.c_str()); return 0; }
  // quick: all scripts of two operations, those of three that end with a wait or kill, and a choice of longer ones
  std::vector<std::string> scripts = {""}; const std::string al = "RPNFQWKX";
  for (size_t i = 0; i < scripts.size(); ++i) if (scripts[i].size() < (T ? 4u : 2u)) for (char a : al) scripts.push_back(scripts[i] + a);
  if (!T) for (char a : al) for (char b : al) for (char d : std::string("WK")) scripts.push_back(std::string{a, b, d});
  for (auto s : {"RRPW", "RRRW", "RRKRW", "FGRW", "NNW", "RNPW", "RRPP", "RwRW", "RSPSW", "FQGG", "NKW", "FKFG", "WRW", "RRRPW", "NWNW", "RKRK"}) scripts.push_back(s);
  std::sort(scripts.begin(), scripts.end(), [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
  for (auto& s : scripts) for (int ps = 0; ps <= 2; ++ps) if (vk::mine()) { vk::sample("pool " + std::to_string(ps) + " script " + s); explore(ps, s, ps == 1 ? (T || s.size() <= 3 ? -1 : 3) : (T ? 4 : 2), false); }
  for (auto& s : scripts) if (s.size() <= (T ? 3 : 2)) for (int ps = 1; ps <= 2; ++ps) if (vk::mine()) explore(ps, s, T ? 2 : 1, true);
  for (auto& s : scripts) if (s.size() <= 2) if (vk::mine()) explore(3, s, T ? 3 : 1, false);
  return vk::finish();
}
