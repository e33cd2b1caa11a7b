// Stateless model checker for multi-threaded C++ code: threads become fibers of one kernel thread, every synchronisation
// operation is a scheduling point, every alternative is explored in a forked copy of the process.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {
  struct Config {
    int preemptions = 2;          // bound on context switches away from a thread that could continue (-1: unbounded)
    bool races = true;            // happens-before race detection (needs -fsanitize=thread instrumentation of the code under test)
    bool spurious = false;        // spurious wake-ups of condition variables (each costs one preemption)
    bool cache = true;            // prune states that are reached by an equivalent (same happens-before relation) execution
    uint64_t max_steps = 400000;  // scheduling points of one execution; more counts as non-termination
    double max_seconds = 0;       // stop forking new alternatives afterwards (the evidence says so)
    int jobs = 8;
    int cpu_seconds = 60;         // CPU time of one process without end counts as non-termination
    bool exit_is_violation = true;
    std::string expect_exit;      // unused by default
    bool race_symbols = true;
    int choice_bound = -1;        // bound on the number of non-default free choices (-1: none)
    std::string race_filter;      // only races with a frame in a file containing this are reported
  };
  struct Violation { std::string key, msg, trace; };
  struct Result {
    uint64_t executions = 0, points = 0, pruned = 0, states = 0, truncated = 0, maxthreads = 0, maxpoints = 0;
    bool capped = false;
    std::vector<Violation> violations;
    uint64_t counters[32] = {};
  };
  // Explores all schedules of body within the bounds.
  Result explore(const Config& c, const std::function<void()>& body);
  // Executes one schedule given by the choice list of a violation.
  Result replay(const Config& c, const std::function<void()>& body, const std::string& trace);
  // ---- for bodies
  bool active();
  int self();                                  // index of the current thread
  int choose(int n, const char* what, int cost = 0); // environment choice, explored exhaustively (alternatives > 0 cost)
  void fail(const std::string& key, const std::string& msg);   // reports a violation and ends this execution
  void report(const std::string& key, const std::string& msg); // reports a violation and continues
  void prune();                                // ends this execution without a verdict
  void end_ok();                               // ends this execution successfully (e.g. after an expected stop)
  void counter(int i, uint64_t v = 1);
  void block_until(const std::function<bool()>& ready, const char* what, void* obj);  // custom blocking operation
  void point(const char* what, void* obj);     // explicit scheduling point (conflicting operation on obj)
  void yield_point();                          // polling: other threads run first
  void set_exit_hook(std::function<void(int)> f); // called when the code under test calls exit()
  void clock_step(uint64_t seconds);           // every later reading of the clock advances it (for replays; 0: time stands still)
  void clock_base(uint64_t seconds);           // what the clock shows (and seeds of random numbers taken from it)
  int budget_used();
  std::string trace_text();
}
