// Exploration of all interleavings (within bounds) of reconstructions.
#pragma once
#include "recon.hpp"
namespace sched {
  struct Case { int n; std::vector<std::string> f; rec::Opt o; int pre, ch; std::string extra; int mode = 0; };
  inline const Case*& cs() { static const Case* c; return c; }
  inline void go(const Case& c, const std::function<void()>& body, double secs, bool races = true) {
    cs() = &c; mc::Config m; m.preemptions = c.pre; m.choice_bound = c.ch; m.races = races; m.race_filter = "firefly"; m.max_seconds = secs; m.jobs = 1; m.max_steps = 200000; m.cpu_seconds = 60;
    std::string nm = std::to_string(c.n) + " variables, " + c.o.text() + c.extra + ", preemptions " + std::to_string(c.pre) + ", choices " + std::to_string(c.ch) + ": "; for (auto& s : c.f) nm += s + "; "; vk::cur(nm); vk::sample(nm);
    auto t0 = std::chrono::steady_clock::now(); mc::Result r = mc::explore(m, body);
    vk::count("schedules", r.executions); vk::count("pruned", r.pruned); vk::count("transitions", r.points); vk::count("states", r.states); vk::count("configurations"); vk::eval(r.executions); vk::nontrivial(r.executions); if (r.capped) vk::count("capped_configurations");
    for (int i = 0; i < 8; ++i) if (r.counters[i]) vk::count("counter_" + std::to_string(i), r.counters[i]);
    if (getenv("VK_DEBUG")) fprintf(stderr, "%s: %lu schedules %lu pruned %lu states maxpoints %lu threads %lu %s %.1fs\n", nm.c_str(), r.executions, r.pruned, r.states, r.maxpoints, r.maxthreads, r.capped ? "CAPPED" : "", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    for (auto& v : r.violations) vk::violation(v.key, v.msg + " (" + nm + ")", nm, v.trace.substr(0, 1500)); }
  // VAR: <n> <threads> <bunch> <preemptions> <choices> <function>...; environment O: letters of options
  inline bool from_args(Case& c) { auto& a = vk::st().args; if (a.size() < 6) return false; c.n = atoi(a[0].c_str()); c.o.threads = atoi(a[1].c_str()); c.o.bunch = atoi(a[2].c_str()); c.pre = atoi(a[3].c_str()); c.ch = atoi(a[4].c_str()); c.f.assign(a.begin() + 5, a.end());
    if (const char* e = getenv("O")) for (; *e; ++e) { if (*e == 's') c.o.shift = 1; if (*e == 'f') c.o.factor = 1; if (*e == 'S') c.o.safe = 1; if (*e >= '0' && *e <= '9') c.mode = *e - '0'; } return true; }
}
