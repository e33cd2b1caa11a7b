// Common part of all harnesses: sharding, counters, violation reports.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <ctime>
#include <sys/wait.h>
#include <unistd.h>

namespace vk {
  struct State {
    int shard = 0, nshards = 1;
    bool thorough = false;
    FILE* out = nullptr;
    char* cur = nullptr;
    std::map<std::string, uint64_t> counts;
    std::set<std::string> keys;
    int samples = 0;
    uint64_t idx = 0;
    std::vector<std::string> args;
  };
  inline State& st() { static State s; return s; }
  inline std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r;
  }
  inline void init(int argc, char** argv) {
    State& s = st();
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--shard") sscanf(argv[++i], "%d/%d", &s.shard, &s.nshards);
      else if (a == "--thorough") s.thorough = true;
      else if (a == "--out") { s.out = fopen(argv[++i], "w"); setvbuf(s.out, nullptr, _IOLBF, 1 << 16); }
      else if (a == "--cur") {
        int fd = open(argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, 4096) != 0) abort();
        s.cur = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
      } else s.args.push_back(a);
    }
    if (!s.out) s.out = stdout;
  }
  inline bool thorough() { return st().thorough; }
  // Round-robin ownership of the next case.
  inline bool known(const std::string& key) {
    static std::set<std::string>* k = nullptr;
    if (!k) { k = new std::set<std::string>; const char* p = getenv("VK_KNOWN"); FILE* f = p ? fopen(p, "r") : nullptr; char b[8192]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; k->insert(b); } if (f) fclose(f); }
    std::string u; bool sp = false; for (char c : key) { bool w = c == ' ' || c == '\t' || c == '\n'; if (!w) u += c; else if (!sp) u += '_'; sp = w; }
    return k->count(u) != 0;
  }
  // No more work after many violations, or some time after the first one in any shard: each may be slow (non-termination).
  inline bool stopped() { const char* p = getenv("VK_STOP"); struct stat b; return p && stat(p, &b) == 0 && time(nullptr) - b.st_mtime > 30; }
  inline bool mine() { State& s = st(); if ((int)(s.idx++ % s.nshards) != s.shard || s.keys.size() >= 25) return false; static uint64_t k = 0; static bool stop = false; if (k++ % 16 == 0 || !s.keys.empty()) stop = stop || stopped(); return !stop; }
  inline void cur(const std::string& c) {
    State& s = st();
    if (s.cur) { size_t n = c.size() < 4000 ? c.size() : 4000; memcpy(s.cur, c.data(), n); s.cur[n] = 0; }
  }
  inline std::string getcur() { return st().cur ? std::string(st().cur) : std::string(); }
  inline void count(const std::string& k, uint64_t v = 1) { st().counts[k] += v; }
  inline void eval(uint64_t n = 1) { static uint64_t& c = st().counts["evaluations"]; c += n; }
  inline void nontrivial(uint64_t n = 1) { static uint64_t& c = st().counts["distinct_nontrivial"]; c += n; }
  inline void sample(const std::string& v, int max = 2) {
    State& s = st();
    if (s.samples < max) { ++s.samples; fprintf(s.out, "{\"t\":\"sample\",\"v\":\"%s\"}\n", esc(v).c_str()); }
  }
  inline void note(const std::string& v) { fprintf(st().out, "{\"t\":\"note\",\"v\":\"%s\"}\n", esc(v).c_str()); }
  inline void violation(const std::string& key, const std::string& msg, const std::string& cas = "", const std::string& detail = "") {
    State& s = st(); static std::set<std::string> kn;
    if (known(key)) { if (!kn.insert(key).second) return; }
    else { if (s.keys.size() > 60 || !s.keys.insert(key).second) return; const char* p = getenv("VK_STOP"); int fd = p ? open(p, O_CREAT | O_EXCL | O_WRONLY, 0644) : -1; if (fd >= 0) close(fd); }
    fprintf(s.out, "{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"detail\":\"%s\"}\n", esc(key).c_str(), esc(msg).c_str(),
            esc(cas.empty() ? getcur() : cas).c_str(), esc(detail).c_str());
    fflush(s.out);
  }
  inline int finish() {
    State& s = st();
    for (auto& c : s.counts) fprintf(s.out, "{\"t\":\"count\",\"k\":\"%s\",\"v\":%llu}\n", c.first.c_str(), (unsigned long long)c.second);
    fprintf(s.out, "{\"t\":\"end\"}\n");
    fclose(s.out);
    fflush(stdout);
    _exit(0);
  }
  struct Child { int status = 0; bool timeout = false; std::string data, err;
    bool exited(int c) const { return WIFEXITED(status) && WEXITSTATUS(status) == c; }
    std::string desc() const {
      if (timeout) return "timeout";
      if (WIFEXITED(status)) return "exit" + std::to_string(WEXITSTATUS(status));
      return "signal" + std::to_string(WTERMSIG(status)); } };
  // Runs fn in a forked child; fn's returned string comes back in data; stderr (and stdout) captured in err.
  inline Child isolated(const std::function<std::string()>& fn, int cpu_s = 60, bool capture = true) {
    int p[2], q[2];
    if (pipe(p) || pipe(q)) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]); close(q[0]);
      if (capture) { dup2(q[1], 2); dup2(q[1], 1); }
      close(q[1]);
      struct rlimit rl {(rlim_t)cpu_s, (rlim_t)cpu_s + 1}; setrlimit(RLIMIT_CPU, &rl);
      struct rlimit cl {0, 0}; setrlimit(RLIMIT_CORE, &cl);
      std::string r = fn();
      size_t o = 0; while (o < r.size()) { ssize_t k = write(p[1], r.data() + o, r.size() - o); if (k <= 0) break; o += k; }
      _exit(77);
    }
    close(p[1]); close(q[1]);
    Child c; char b[4096];
    // stderr may be large: read both until EOF
    fd_set fs; bool a = true, e = true;
    while (a || e) {
      FD_ZERO(&fs); if (a) FD_SET(p[0], &fs); if (e) FD_SET(q[0], &fs);
      struct timeval tv {cpu_s * 6, 0};
      int r = select((p[0] > q[0] ? p[0] : q[0]) + 1, &fs, nullptr, nullptr, &tv);
      if (r <= 0) { c.timeout = true; kill(pid, SIGKILL); break; }
      if (a && FD_ISSET(p[0], &fs)) { ssize_t k = read(p[0], b, sizeof b); if (k <= 0) a = false; else c.data.append(b, k); }
      if (e && FD_ISSET(q[0], &fs)) { ssize_t k = read(q[0], b, sizeof b); if (k <= 0) e = false; else if (c.err.size() < 20000) c.err.append(b, k); }
    }
    close(p[0]); close(q[0]);
    waitpid(pid, &c.status, 0);
    if (WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGXCPU) c.timeout = true;
    return c;
  }
  inline bool ok(const Child& c) { return c.exited(77); }
}
