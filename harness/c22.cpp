// C22: the firefly executable, driven round by round with files of precomputed probes until it finishes.
#define main firefly_main
#include FIREFLY_CPP
#undef main
#include "recon.hpp"
#include <zlib.h>
#include <getopt.h>
typedef std::vector<uint64_t> P; typedef std::vector<std::string> V; typedef unsigned __int128 u128;
struct Shared { int ended, code, prime; char what[200]; };
static Shared* sh() { static Shared* s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
struct Line { std::vector<uint32_t> o; uint64_t t; std::vector<uint64_t> v; };
struct Case { int n; V f; int threads, variant, first; bool lines2; std::string text() const { static const char* vn[] = {"in the requested order", "in reverse order", "with surplus probes", "sorted by order", "with the halves exchanged", "half of them later"}; std::string s = std::to_string(n) + " variables, " + std::to_string(threads) + " threads, " + std::to_string(first) + " first probes, supplied " + vn[variant] + (lines2 ? ", anchor points for all primes" : ", anchor points for the first prime") + ": "; for (auto& x : f) s += x + "; "; return s; } };
static std::string slurp(const char* p) { std::string r; gzFile f = gzopen(p, "r"); if (!f) return r; char b[4096]; int k; while ((k = gzread(f, b, sizeof b)) > 0) r.append(b, (size_t)k); gzclose(f); return r; }
static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; size_t a = 0; for (;;) { size_t b = s.find(d, a); if (b == std::string::npos) { if (a < s.size()) r.push_back(s.substr(a)); return r; } r.push_back(s.substr(a, b - a)); a = b + 1; } }
static std::vector<uint64_t> nums(const std::string& s) { std::vector<uint64_t> r; std::string u = s; for (char& ch : u) if (ch == '\n') ch = ' '; for (auto& x : split(u, ' ')) if (!x.empty()) r.push_back(std::stoull(x)); return r; }
static uint64_t powm(uint64_t a, uint32_t e, uint64_t p) { uint64_t r = 1; while (e--) r = (uint64_t)((u128)r * a % p); return r; }
static int errfd() { static int fd = memfd_create("stderr", 0); return fd; }
static void write_file(const std::string& name, const std::string& text) { FILE* f = fopen(name.c_str(), "w"); if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) abort(); fclose(f); }
struct User {
  const Case& c; rec::BB* bb = nullptr; int prime = -1; std::vector<std::vector<uint64_t>> anchors, shifts; std::map<int, std::vector<Line>> file; uint64_t fresh = 1000003; std::vector<Line> later; int laterk = 0;
  User(const Case& c_) : c(c_) {}
  void field(int k) { if (k == prime && bb) return; prime = k; firefly::FFInt::set_new_prime(firefly::primes()[k]); if (!bb) bb = new rec::BB(c.n, c.f); bb->prime_changed(); }
  std::vector<uint64_t> point(int k, const std::vector<uint32_t>& o, uint64_t t, bool& known) { uint64_t p = firefly::primes()[k]; std::vector<uint64_t> a, s; known = true; if ((size_t)k < anchors.size() || c.n == 1) { a = c.n == 1 ? P() : anchors[k]; s = c.n == 1 ? P(1, 0) : shifts[k]; } else { a = nums(slurp("ff_save/anchor_points")); s = nums(slurp("ff_save/shift")); if ((int)a.size() != c.n - 1 || (int)s.size() != c.n) { known = false; return {}; } } std::vector<uint64_t> x(c.n); x[0] = (uint64_t)(((u128)t + s[0]) % p); for (int i = 1; i < c.n; ++i) x[i] = (uint64_t)(((u128)powm(a[i - 1] % p, o[i - 1], p) * t + s[i]) % p); return x; }
  Line probe(int k, const std::vector<uint32_t>& o, uint64_t t, const std::vector<uint64_t>& x) { field(k); std::vector<firefly::FFInt> y(x.begin(), x.end()); Line l {o, t, {}}; for (auto& v : (*bb)(y)) l.v.push_back(v.n); return l; }
  uint64_t t() { fresh = fresh * 6364136223846793005ull + 1442695040888963407ull; return fresh % 9223372036854775000ull; }
  // probes of the first order, made by the user himself
  std::string first(int k) { std::vector<uint32_t> o(c.n - 1, 1); for (int i = 0; i < c.first; ++i) { uint64_t u = t(); bool known; auto x = point(k, o, u, known); if (!known) return "there are no anchor points for prime " + std::to_string(k); file[k].push_back(probe(k, o, u, x)); } return ""; }
  void store() { rec::remove_dir("probes"); if (mkdir("probes", 0755)) abort(); for (auto& e : file) { std::vector<Line> l = e.second; if (c.variant == 1) std::reverse(l.begin(), l.end()); if (c.variant == 3) std::stable_sort(l.begin(), l.end(), [](const Line& a, const Line& b) { return a.o > b.o; }); if (c.variant == 4) std::rotate(l.begin(), l.begin() + l.size() / 2, l.end());
      gzFile f = gzopen(("probes/" + std::to_string(e.first) + ".gz").c_str(), "w"); for (auto& x : l) { std::string s; for (auto o : x.o) s += std::to_string(o) + " "; s += "| " + std::to_string(x.t) + " |"; for (auto v : x.v) s += " " + std::to_string(v); s += "\n"; gzputs(f, s.c_str()); } gzclose(f); } }
  // evaluates the requested probes; returns an error or the empty text
  std::string serve(int k, const std::string& text, size_t& served) { served = 0; for (auto& l : later) file[laterk].push_back(l); later.clear(); laterk = k; auto lines = split(text, '\n'); std::set<std::pair<std::vector<uint32_t>, uint64_t>> have; for (auto& l : file[k]) have.insert({l.o, l.t}); size_t m = c.variant == 5 ? (lines.size() + 1) / 2 : lines.size();
    for (size_t i = 0; i < lines.size(); ++i) { auto& s = lines[i]; auto part = split(s, '|'); if (part.size() != 3) return "the requested probe '" + s + "' is unreadable"; auto oo = nums(part[0]); auto tt = nums(part[1]), x = nums(part[2]); if ((int)oo.size() != c.n - 1 || tt.size() != 1 || (int)x.size() != c.n) return "the requested probe '" + s + "' has a wrong number of entries"; std::vector<uint32_t> o(oo.begin(), oo.end());
      bool known; auto want = point(k, o, tt[0], known); if (!known) return "there are no anchor points for prime " + std::to_string(k); if (want != x) { std::string w; for (auto v : want) w += " " + std::to_string(v); return "the requested probe '" + s + "' is not at the point which belongs to its order, anchor points and shift:" + w; }
      if (!have.insert({o, tt[0]}).second) return "the requested probe '" + s + "' has been requested twice or been supplied before"; ++served; (i < m ? file[k] : later).push_back(probe(k, o, tt[0], x)); }
    if (c.variant == 2) { for (uint32_t q : {1u, 2u, 5u}) { std::vector<uint32_t> o(c.n - 1, q); uint64_t u = t(); bool known; auto x = point(k, o, u, known); file[k].push_back(probe(k, o, u, x)); if (c.n == 1) break; } if (c.n > 2) { std::vector<uint32_t> o(c.n - 1, 1); o[0] = 2; uint64_t u = t(); bool known; auto x = point(k, o, u, known); file[k].push_back(probe(k, o, u, x)); } }
    return ""; }
};
enum Kind { ENDED, EXIT, BAD };
static Kind session(const Case& c, int round, std::string& key, std::string& msg, uint64_t& points) {
  *sh() = Shared(); sh()->prime = -1; if (ftruncate(errfd(), 0)) abort(); unlink("requested_probes.gz"); unlink("result.m"); mc::Config m; m.preemptions = 0; m.races = false; m.cpu_seconds = 20; m.max_steps = 3000000; m.exit_is_violation = false;
  mc::Result r = mc::replay(m, [&] {
    { lseek(errfd(), 0, SEEK_SET); if (dup2(errfd(), 2) < 0) abort(); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
    mc::clock_base(1000 + 17 * round); optind = 0;
    auto prime = [] { for (int i = 0; i < 300; ++i) if (firefly::primes()[i] == firefly::FFInt::p) sh()->prime = i; };
    mc::set_exit_hook([&](int code) { sh()->ended = 2; sh()->code = code; prime(); });
    std::string v = std::to_string(c.n), p = std::to_string(c.threads); std::vector<std::string> a = {"firefly", "-v", v, "-p", p}; std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(nullptr);
    sh()->code = firefly_main((int)a.size(), av.data()); prime(); sh()->ended = 1; }, "");
  points = r.points; std::string err; { char b[4001]; ssize_t k = pread(errfd(), b, 4000, 0); if (k > 0) err.assign(b, (size_t)k); } if (getenv("VK_DEBUG")) fprintf(stderr, "%s", err.c_str());
  if (!r.violations.empty()) { key = r.violations[0].key; msg = r.violations[0].msg; return BAD; }
  msg = err; if (sh()->ended == 1 && sh()->code == 0) return ENDED; if (sh()->ended == 2) { msg = err; key = "exit"; return EXIT; }
  key = "end"; msg = "the program ends with code " + std::to_string(sh()->code); return BAD; }
static void drive(const Case& c) {
  vk::cur(c.text()); vk::sample(c.text()); vk::count("configurations"); rec::remove_dir("ff_save"); unlink("anchor_points"); unlink("shifts"); User u(c); u.fresh = 77 + c.n;
  if (c.n > 1) { std::string a, s; for (int k = 0; k < (c.lines2 ? 12 : 1); ++k) { std::vector<uint64_t> x, y; for (int i = 0; i < c.n - 1; ++i) x.push_back(u.t()); bool zero = k > 0; for (int i = 0; i < c.n; ++i) y.push_back(zero ? 0 : u.t()); u.anchors.push_back(x); u.shifts.push_back(y); for (auto v : x) a += std::to_string(v) + " "; a += "\n"; for (auto v : y) s += std::to_string(v) + " "; s += "\n"; } write_file("anchor_points", a); write_file("shifts", s); }
  auto bad = [&](int round, const std::string& key, const std::string& msg) { vk::violation(key + ": " + c.text(), msg + " (round " + std::to_string(round) + " of " + c.text() + ")", c.text()); };
  std::string e; if (c.first >= 0) { e = u.first(0); u.store(); } else rec::remove_dir("probes");  std::map<std::pair<int, size_t>, int> stall;
  for (int round = 1;; ++round) {
    if (round > 600) { bad(round, "endless", "no end after 600 rounds"); return; }
    std::string key, msg; uint64_t points; Kind k = session(c, round, key, msg, points); vk::eval(); vk::count("sessions"); vk::count("scheduling_points", points);
    if (k == BAD) { bad(round, key, msg); return; }
    if (k == EXIT && (msg.find("No probes were supplied") == std::string::npos || !u.file[sh()->prime].empty())) { bad(round, "exit", "the program refuses to continue: " + msg.substr(msg.size() > 300 ? msg.size() - 300 : 0)); return; } if (msg.find("Cannot find probes/" + std::to_string(sh()->prime) + ".gz") != std::string::npos) { if (u.file[sh()->prime].empty()) vk::count("missing_files"); else { bad(round, "file", "the file of probes is not found"); return; } }
    struct stat b; bool fin = stat("result.m", &b) == 0, req = stat("requested_probes.gz", &b) == 0;
    if (fin && req) { bad(round, "both", "the program writes a result and requests probes"); return; } if (!fin && !req) { bad(round, "neither", "the program ends without result and without requesting probes"); return; }
    if (fin) { vk::count("finished"); vk::nontrivial(); std::string t = slurp("result.m"); V vars; for (int i = 0; i < c.n; ++i) vars.push_back("x" + std::to_string(i + 1)); size_t a = t.find('{'), z = t.rfind('}'); if (a == std::string::npos || z == std::string::npos) { bad(round, "format", "result.m is no list: " + t.substr(0, 200)); return; } auto parts = split(t.substr(a + 1, z - a - 1), ','); if (parts.size() != c.f.size()) { bad(round, "count", "result.m contains " + std::to_string(parts.size()) + " functions: " + t.substr(0, 200)); return; }
      V v0 = rec::vars(c.n); for (size_t i = 0; i < parts.size(); ++i) { std::string s; for (char ch : parts[i]) if (ch != '\n') s += ch; try { if (!ex::equal(ex::parse(s, vars), ex::parse(c.f[i], v0))) { bad(round, "result", "function " + std::to_string(i + 1) + " is wrong: " + s.substr(0, 300)); return; } } catch (const std::exception& x) { bad(round, "format", std::string("result.m is unreadable: ") + x.what()); return; } }
      if (getenv("VK_DEBUG")) fprintf(stderr, "%s: %d rounds\n", c.text().c_str(), round); vk::count("rounds", round); return; }
    int pr = sh()->prime; if (pr < 0) { bad(round, "prime", "no prime field is set"); return; } if (!u.file.count(pr)) { bad(round, "prime", "probes of prime field " + std::to_string(pr + 1) + " are requested, but its file has not been read"); return; }
    size_t served; if (getenv("VK_DEBUG")) fprintf(stderr, "round %d prime %d have %zu requested:\n%s", round, pr, u.file[pr].size(), slurp("requested_probes.gz").c_str()); e = u.serve(pr, slurp("requested_probes.gz"), served); if (!e.empty()) { bad(round, "request", e); return; } if (!served) { bad(round, "stuck", "the program neither finishes nor requests probes"); return; } vk::count("requested_probes", served); u.store(); } }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); unlink("firefly.log"); bool T = vk::thorough(); if (symlink("/dev/null", "firefly-exe.log") != 0) {}
  { auto& a = vk::st().args; if (a.size() >= 6) { Case c {atoi(a[0].c_str()), V(a.begin() + 5, a.end()), atoi(a[1].c_str()), atoi(a[3].c_str()), atoi(a[2].c_str()), a[4] == "1"}; drive(c); return vk::finish(); } }
  struct F { int n; V f; };
  std::vector<F> fs = {{2, {"x"}}, {2, {"7/3"}}, {2, {"1/y"}}, {2, {"x/y"}}, {2, {"x*y+1"}}, {2, {"1/(x+y)"}}, {2, {"(x+y)/(x-y)"}}, {2, {"(x^2+3*y)/(x*y-5)"}}, {2, {"123456789123456789123456789/5*x*y+y^2"}}, {2, {"y/(1+123456789123456789123456789123456789*x)"}}, {2, {"x", "y", "x*y"}}, {2, {"1", "0", "123456789123456789123*x+y"}}, {2, {"x^2*y/(1+x)", "x-y", "123456789123456789123456789*y"}}, {2, {"0", "x"}}, {3, {"x*y*z"}}, {3, {"(x+y)/(z-1)"}}, {3, {"x*y+z^2+1", "1/(x+y+z)"}}, {3, {"123456789123456789123456789*x*y/(z+1)"}}, {3, {"x", "123456789123456789123/7*y*z+1", "5/z"}}, {1, {"x"}}, {1, {"(x^2+1)/(x-3)"}}, {1, {"123456789123456789123456789*x", "1/x", "4"}}};
  if (T) for (auto& x : {"x^3*y-7", "(x-1)*(y-2)/(x+3*y)^2", "x^4/(y^3+1)", "1234567891234567891234567891234567891234567*x^2/(y-98765432109876543210987654321)", "x^2+y^2", "(x*y-1)/(x*y+1)", "1/(x^2*y^2)"}) { fs.push_back({2, {x}}); fs.push_back({2, {x, "x+y", "1/x"}}); fs.push_back({3, {x, std::string(x) + "+z", "z/x"}}); }
  for (auto& f : fs) for (int th : {1, 2, 3}) for (int fi : {-1, 0, 1, 4}) for (int v = 0; v < 6; ++v) for (int l2 : {0, 1}) { if (f.n == 1 && (l2 || v == 1)) continue; if (th == 3 && !T) continue; if (!vk::mine()) continue; Case c {f.n, f.f, th, v, fi, l2 != 0}; drive(c); }
  return vk::finish();
}
