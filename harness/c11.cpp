// C11: a reconstruction that is killed at any file operation, then resumed (and killed again).
#include "crash.hpp"
using namespace crash;
typedef std::vector<std::string> V;
static void bad(const Case& c, const std::string& hist, const std::string& cls, const Out& o) { vk::violation(o.key + " after " + cls, o.msg + " (" + c.text() + hist + ")", c.text() + hist); }
static void check(const Case& c, const std::string& hist, const std::string& cls, const Out& o) {
  vk::eval(); vk::count("scheduling_points", o.points); if (o.kind == BAD) bad(c, hist, cls, o); else if (o.kind == FINISHED) { vk::nontrivial(); vk::count("resumed_correctly"); } else if (o.kind == REFUSED) { vk::nontrivial(); vk::count("refused"); if (getenv("VK_DEBUG")) fprintf(stderr, "REFUSED %s after %s: %s\n", c.text().c_str(), cls.c_str(), o.what.c_str()); } }
static std::vector<long> prefixes(long len, int level) { std::vector<long> r; if (len < 2) return r; if (level >= 2 && len <= 400) for (long k = 1; k < len; ++k) r.push_back(k); else if (level == 0) r.push_back(len / 2); else for (long k : {1L, len / 2, len - 1}) if (k > 0 && k < len && (r.empty() || k > r.back())) r.push_back(k); return r; }
// depth: number of further kills
static void explore(const Case& c, const std::vector<Plan>& before, int depth, int level, const std::string& hist0, const std::string& cls0);
static Out rerun(const Case& c, const std::vector<Plan>& ps) { rec::remove_dir("ff_save"); Out o; for (size_t i = 0; i < ps.size(); ++i) o = session(c, i > 0, ps[i]); return o; }
static void branch(const Case& c, std::vector<Plan> ps, const Plan& p, int depth, int level, const std::string& hist0, const std::string& cls0) {
  if (vk::st().keys.size() > 25) return;
  ps.push_back(p); Out k = rerun(c, ps); if (k.kind != KILLED) { if (k.kind == BAD) bad(c, hist0 + " while running up to a kill", cls0, k); return; }
  vk::count("kills"); std::string cls = k.killed_at; if (!cls0.empty()) cls = cls0 + " and " + cls; std::string hist = hist0 + " killed at operation " + std::to_string(p.op) + (p.prefix > 0 ? " after " + std::to_string(p.prefix) + " bytes" : "") + " (" + k.killed_at + ")";
  vk::cur(c.text() + hist); if (depth == 0) { Out r = session(c, true, Plan()); check(c, hist, cls, r); } else explore(c, ps, depth - 1, level, hist, cls); }
static void explore(const Case& c, const std::vector<Plan>& before, int depth, int level, const std::string& hist0, const std::string& cls0) {
  Out full; if (before.empty()) { rec::remove_dir("ff_save"); full = session(c, false, Plan()); } else full = session(c, true, Plan());
  check(c, hist0, cls0, full); vk::count("histories"); if (full.kind == BAD) return;
  int n = full.nops; struct L { std::string k; long len; }; std::vector<L> log; for (int i = 0; i < n && i < 4000; ++i) log.push_back({sh()->log[i].kind, sh()->log[i].len}); vk::count("operations", n);
  if (before.empty() && getenv("VK_DEBUG")) for (int i = 0; i < n; ++i) fprintf(stderr, "%d %s %s %ld\n", i, sh()->log[i].kind, sh()->log[i].path, sh()->log[i].len);
  for (int i = 0; i < (int)log.size(); ++i) { Plan p; p.op = i; branch(c, before, p, depth, level, hist0, cls0); if (log[i].k == "write") for (long x : prefixes(log[i].len, level)) { Plan q; q.op = i; q.prefix = x; branch(c, before, q, depth, depth ? 0 : level, hist0, cls0); } } }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough();
  auto& a = vk::st().args; if (a.size() >= 4) { Case c; c.n = atoi(a[0].c_str()); c.o.threads = atoi(a[1].c_str()); c.o.bunch = atoi(a[2].c_str()); if (const char* e = getenv("O")) for (; *e; ++e) { if (*e == 's') c.o.shift = 1; if (*e == 'f') c.o.factor = 1; if (*e == 'S') c.o.safe = 1; if (*e == 't') c.clock = 2000; } c.f.assign(a.begin() + 3, a.end()); if (const char* k = getenv("KILL")) { Plan p; p.op = atoi(k); if (const char* q = getenv("PREFIX")) p.prefix = atoi(q); rec::remove_dir("ff_save"); Out o = session(c, false, p); printf("%d %s\n", o.kind, o.killed_at.c_str()); if (system("for i in $(find ff_save -type f); do echo == $i; zcat -f $i; done")) {} o = session(c, true, Plan()); printf("%d %s %s %s\n", o.kind, o.key.c_str(), o.msg.c_str(), o.what.c_str()); return 0; } explore(c, {}, 0, 1, "", ""); return vk::finish(); }
  struct F { int n; V f; }; const std::string big = "123456789123456789123456789/7*x+5";
  std::vector<F> fs = {{1, {"(1+x)/(2-x)"}}, {1, {big}}, {1, {"0"}}, {1, {"x", "0", big}}, {2, {"x*y"}}, {2, {"(x+y)/(x-y)", "7"}}, {2, {"123456789123456789123*x+y", "0", "x^2*y/(1+x)"}}, {3, {"x*y+z", "(x-98765432109876543210987654321)/(y+z)"}}};
  for (auto& f : fs) for (int th : {1, 2}) for (auto opt : {"", "s", "S", "t", "f", "st", "sf", "St"}) { if (!T && th == 2 && opt[0]) continue; if (!vk::mine()) continue; Case c; c.n = f.n; c.f = f.f; c.o.threads = th; for (const char* e = opt; *e; ++e) { if (*e == 's') c.o.shift = 1; if (*e == 'f') c.o.factor = 1; if (*e == 'S') c.o.safe = 1; if (*e == 't') c.clock = 2000; } vk::sample(c.text()); explore(c, {}, 0, T ? 2 : 1, "", ""); }
  // killed twice: the second kill at every operation of the resumed run
  for (auto& f : fs) for (auto opt : {"", "t", "s", "S"}) { if (!T && !(opt[0] == 0 && f.n == 1 && f.f.size() == 1) && !(opt == std::string("t") && (f.n == 2 && f.f.size() == 1))) continue; Case c; c.n = f.n; c.f = f.f; for (const char* e = opt; *e; ++e) { if (*e == 's') c.o.shift = 1; if (*e == 'S') c.o.safe = 1; if (*e == 't') c.clock = 2000; }
    vk::cur(c.text()); rec::remove_dir("ff_save"); Out full = session(c, false, Plan()); if (full.kind == BAD) { bad(c, "", "", full); continue; } int n = std::min(full.nops, 4000); std::vector<long> lens; for (int i = 0; i < n; ++i) lens.push_back(strcmp(sh()->log[i].kind, "write") ? 0 : sh()->log[i].len);
    for (int i = 0; i < n; ++i) { if (!vk::mine()) continue; Plan p; p.op = i; branch(c, {}, p, 1, 0, "", ""); if (lens[i] > 1) { p.prefix = lens[i] / 2; branch(c, {}, p, 1, 0, "", ""); } } }
  return vk::finish();
}
