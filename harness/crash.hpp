// Sessions of a state-saving reconstruction that are killed at a chosen point, and their resumption in a fresh process.
// Every change of a file below ff_save is an operation; a session can be killed before any of them or within a write.
#pragma once
#include "recon.hpp"
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <string>
namespace crash {
  struct Plan { int op = -1; long prefix = -1; int eval = -1; };   // kill before operation op; prefix >= 0: after that many bytes of the write; kill before evaluation eval
  enum Kind { FINISHED, KILLED, REFUSED, BAD };
  struct Shared { int nops, nevals, nprimes; int perprime[64]; Kind kind; char what[300]; struct { char kind[8]; char path[72]; long len; } log[4000]; };
  inline Shared* sh() { static Shared* s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
  inline Plan& plan() { static Plan p; return p; }
  inline char (*fds())[72] { static char f[1024][72]; return f; }
  static bool on = false;
  [[noreturn]] inline void kill_now() { on = false; sh()->kind = KILLED; mc::end_ok(); abort(); }
  inline bool ours(const char* p) { return on && p && strstr(p, "ff_save"); }
  // returns the number of bytes to write before the kill, or -1
  inline long op(const char* kind, const char* path, long len) {
    Shared* s = sh(); int i = s->nops++; if (i < 4000) { snprintf(s->log[i].kind, 8, "%s", kind); snprintf(s->log[i].path, 72, "%s", path); s->log[i].len = len; }
    if (i == plan().op) { if (plan().prefix > 0 && plan().prefix < len) return plan().prefix; kill_now(); } return -1; }
  inline void eval() { if (!on) return; Shared* s = sh(); int i = s->nevals; if (i == plan().eval) kill_now(); ++s->nevals; if (s->nprimes < 64) ++s->perprime[s->nprimes]; }
  template<typename T> T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
  inline void track(int fd, const char* p) { if (fd >= 0 && fd < 1024) { if (p) snprintf(fds()[fd], 72, "%s", p); else fds()[fd][0] = 0; } }
  inline const char* tracked(int fd) { return on && fd >= 0 && fd < 1024 && fds()[fd][0] ? fds()[fd] : nullptr; }
}
extern "C" {
  int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); bool w = crash::ours(p) && (fl & (O_WRONLY | O_RDWR)); if (w) crash::op("create", p, 0); int fd = crash::real<int (*)(const char*, int, ...)>("open")(p, fl, m); if (w) crash::track(fd, p); return fd; }
  int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); bool w = crash::ours(p) && (fl & (O_WRONLY | O_RDWR)); if (w) crash::op("create", p, 0); int fd = crash::real<int (*)(const char*, int, ...)>("open64")(p, fl, m); if (w) crash::track(fd, p); return fd; }
  FILE* fopen(const char* p, const char* m) { bool w = crash::ours(p) && m[0] != 'r'; if (w) crash::op("create", p, 0); FILE* f = crash::real<FILE* (*)(const char*, const char*)>("fopen")(p, m); if (w && f) crash::track(fileno(f), p); return f; }
  FILE* fopen64(const char* p, const char* m) { bool w = crash::ours(p) && m[0] != 'r'; if (w) crash::op("create", p, 0); FILE* f = crash::real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); if (w && f) crash::track(fileno(f), p); return f; }
  ssize_t write(int fd, const void* b, size_t n) { static auto r = crash::real<ssize_t (*)(int, const void*, size_t)>("write"); const char* p = crash::tracked(fd); if (p) { long k = crash::op("write", p, (long)n); if (k >= 0) { if (r(fd, b, (size_t)k) != k) abort(); crash::kill_now(); } } return r(fd, b, n); }
  ssize_t writev(int fd, const struct iovec* v, int n) { static auto r = crash::real<ssize_t (*)(int, const struct iovec*, int)>("writev"); if (crash::tracked(fd)) { ssize_t t = 0; for (int i = 0; i < n; ++i) { if (v[i].iov_len) { ssize_t k = write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; } } return t; } return r(fd, v, n); }
  int close(int fd) { static auto r = crash::real<int (*)(int)>("close"); if (fd >= 0 && fd < 1024) crash::fds()[fd][0] = 0; return r(fd); }
  int rename(const char* a, const char* b) noexcept { if (crash::ours(a) && access(a, F_OK) == 0) crash::op("rename", a, 0); return crash::real<int (*)(const char*, const char*)>("rename")(a, b); }
  int remove(const char* a) noexcept { if (crash::ours(a) && access(a, F_OK) == 0) crash::op("remove", a, 0); return crash::real<int (*)(const char*)>("remove")(a); }
  int unlink(const char* a) noexcept { if (crash::ours(a) && access(a, F_OK) == 0) crash::op("remove", a, 0); return crash::real<int (*)(const char*)>("unlink")(a); }
  int mkdir(const char* a, mode_t m) noexcept { if (crash::ours(a) && access(a, F_OK) != 0) crash::op("mkdir", a, 0); return crash::real<int (*)(const char*, mode_t)>("mkdir")(a, m); }
}
namespace crash {
  class BB : public firefly::BlackBoxBase<BB> { public: rec::BB b; BB(int n, const std::vector<std::string>& f) : b(n, f) {} void prime_changed() { b.prime_changed(); if (on) ++sh()->nprimes; }
    template<typename T> std::vector<T> operator()(const std::vector<T>& v) { crash::eval(); return b(v); } };
  struct Case { int n; std::vector<std::string> f; rec::Opt o; uint64_t clock = 0; bool named = false;
    std::string text() const { std::string s = std::to_string(n) + " variables, " + o.text() + (clock ? " slow" : "") + ": "; for (auto& x : f) s += x + "; "; return s; } };
  inline std::string op_class(const std::string& k, const std::string& p) { std::string r; for (char c : p) { if (isdigit((unsigned char)c)) { if (r.empty() || r.back() != '#') r += '#'; } else r += c; } size_t q = r.find("ff_save"); if (q != std::string::npos) r = r.substr(q); return k + " " + r; }
  inline int errfd() { static int fd = memfd_create("stderr", 0); return fd; }
  struct Out { Kind kind; std::string key, msg, what; int nops, nevals, nprimes; std::vector<int> perprime; std::string killed_at; uint64_t points; };
  struct Opt : rec::Opt { int n_override = 0; std::vector<std::string> f_override; };
  // Runs one session in a process of its own (a fork of this one, which has never run a reconstruction).
  inline Out session(const Case& c, bool resume, const Plan& p, const std::function<void(Opt&)>& mod = nullptr) {
    memset((void*)sh(), 0, offsetof(Shared, log)); plan() = p; sh()->kind = BAD; if (ftruncate(errfd(), 0)) abort(); mc::Config m; m.preemptions = 0; m.races = false; m.cpu_seconds = 20; m.max_steps = 3000000; m.exit_is_violation = false; Opt o; (rec::Opt&)o = c.o; o.save = !resume; o.resume = resume; if (mod) mod(o);
    mc::Result r = mc::replay(m, [&] {
      if (!getenv("VK_DEBUG")) { lseek(errfd(), 0, SEEK_SET); if (dup2(errfd(), 2) < 0) abort(); }
      mc::clock_step(c.clock); on = true;
      mc::set_exit_hook([](int code) { on = false; snprintf(sh()->what, sizeof sh()->what, "exit(%d)", code); sh()->kind = code ? REFUSED : FINISHED; if (!code) mc::fail("exit-0", "the program ends with exit(0)"); });
      try { BB bb(o.n_override ? o.n_override : c.n, o.f_override.empty() ? c.f : o.f_override); firefly::Reconstructor<BB> rc(bb.b.n, o.threads, o.bunch, bb, o.verbosity); rec::options2(rc, o); rc.reconstruct(o.primes); auto res = rc.get_result(); on = false; rec::check_all(res, bb.b, !o.factor); sh()->kind = FINISHED; }
      catch (const std::exception& e) { on = false; snprintf(sh()->what, sizeof sh()->what, "exception: %s", e.what()); sh()->kind = REFUSED; } }, "");
    on = false; std::string err; { char b[4001]; ssize_t k = pread(errfd(), b, 4000, 0); if (k > 0) err.assign(b, (size_t)k); }
    Out out; out.nprimes = sh()->nprimes; out.perprime.assign(sh()->perprime, sh()->perprime + 64); out.kind = sh()->kind; out.what = sh()->what; if (out.kind == REFUSED) { size_t q = err.find("error"); if (q != std::string::npos) out.what += " " + err.substr(q, 200); else if (out.what[0] == 'e' && out.what[2] == 'i' && !getenv("VK_DEBUG")) { out.kind = BAD; out.key = "silent-refusal"; out.msg = "the program gives up without an error message"; } } out.nops = sh()->nops; out.nevals = sh()->nevals; out.points = r.points;
    if (out.kind == KILLED && p.op >= 0 && p.op < 4000) { auto& l = sh()->log[p.op]; out.killed_at = op_class(l.kind, l.path) + (p.prefix > 0 ? " (torn)" : ""); } else if (out.kind == KILLED) out.killed_at = "evaluation";
    if (!r.violations.empty()) { out.kind = BAD; out.key = r.violations[0].key; out.msg = r.violations[0].msg; for (auto& v : r.violations) if (v.key == "result" || v.key == "count") { out.key = v.key; out.msg = v.msg; } }
    return out; }
}
