// C21, second part: the program ff_insert itself, in all its modes, in sequences of runs, and killed at any file operation with -s.
#define main ff_insert_main
#include FF_INSERT_CPP
#undef main
#include "crash.hpp"
#include "lin.hpp"
#include <fstream>
#include <dirent.h>
#include <sstream>
typedef std::vector<std::string> V;
using crash::sh;
struct Case { std::string name; V fam, vars; std::vector<std::pair<std::string, std::string>> e; V tables, skip; std::map<std::string, std::string> factor; };
enum Kind { ENDED, EXIT, KILLED, BAD };
static std::string slurp(const std::string& p) { std::ifstream f(p); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static bool exists(const std::string& p) { struct stat b; return stat(p.c_str(), &b) == 0; }
static void put(const std::string& p, const std::string& t) { std::ofstream f(p); f << t; if (!f.good()) abort(); }
static V list(const std::string& d) { V r; DIR* x = opendir(d.c_str()); if (!x) return r; while (dirent* e = readdir(x)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(x); std::sort(r.begin(), r.end()); return r; }
static std::string dirname_of;  // every configuration has a directory of its own below the scratch directory
static Kind session(const V& args, std::string& msg, const crash::Plan& p = crash::Plan()) {
  memset((void*)sh(), 0, offsetof(crash::Shared, log)); crash::plan() = p; sh()->kind = crash::BAD; if (ftruncate(crash::errfd(), 0)) abort(); mc::Config m; m.preemptions = 0; m.races = false; m.cpu_seconds = 20; m.max_steps = 3000000; m.exit_is_violation = false;
  mc::Result r = mc::replay(m, [&] {
    { lseek(crash::errfd(), 0, SEEK_SET); if (dup2(crash::errfd(), 2) < 0) abort(); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
    mc::clock_base(1000); crash::on = true; mc::set_exit_hook([&](int code) { crash::on = false; sh()->nevals = code; sh()->kind = crash::REFUSED; });
    V a = {"ff_insert"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(nullptr); sh()->nevals = ff_insert_main((int)a.size(), av.data()); crash::on = false; sh()->kind = crash::FINISHED; }, "");
  crash::on = false; { char b[8001]; ssize_t k = pread(crash::errfd(), b, 8000, 0); msg.assign(b, k > 0 ? (size_t)k : 0); } if (getenv("VK_DEBUG")) fprintf(stderr, "%s", msg.c_str()); vk::eval(); vk::count("sessions"); vk::count("scheduling_points", r.points);
  size_t q = msg.find("error"); std::string err = q == std::string::npos ? "" : msg.substr(q, 300); if (!r.violations.empty()) { msg = r.violations[0].key + ": " + r.violations[0].msg; return BAD; }
  if (sh()->kind == crash::KILLED) return KILLED; if (sh()->kind == crash::REFUSED) { if (!sh()->nevals || err.empty()) { msg = "the program exits with status " + std::to_string(sh()->nevals) + (err.empty() ? " without an error message" : ""); return BAD; } msg = err; return EXIT; } if (sh()->kind == crash::FINISHED && sh()->nevals == 0) { msg = err; return ENDED; } msg = "the program returns " + std::to_string(sh()->nevals); return BAD; }
struct World { const Case& c; std::vector<lin::Map> want; lin::Rules r;
  World(const Case& c_) : c(c_) { for (auto& e : c.e) { lin::Map m = lin::Parser(lin::unbrace(e.second.substr(0, e.second.find(';'))), c.vars, c.fam).run(); lin::Rules q; for (auto& t : c.tables) lin::table(t, c.vars, c.fam, q, [&](const std::string& f) { return m.count(f) != 0; }); want.push_back(lin::apply(m, q)); } }
  void setup() { for (auto& f : list(".")) if (f[0] != '.') rec::remove_dir(f.c_str()); mkdir("config", 0755); std::string s = "# functions\n"; for (auto& f : c.fam) s += f + "\n"; put("config/functions", s); s = ""; for (auto& f : c.vars) s += f + "\n"; put("config/vars", s + "\n#x\n"); if (!c.skip.empty()) { s = ""; for (auto& f : c.skip) s += f + "\n"; put("config/skip_functions", s); } if (!c.tables.empty()) { mkdir("replacements", 0755); for (size_t i = 0; i < c.tables.size(); ++i) put("replacements/r" + std::to_string(i) + ".m", c.tables[i]); } for (auto& e : c.e) put(e.first, e.second); mkdir("in", 0755); for (auto& e : c.e) put("in/" + e.first, e.second); }
  // compares the text of a produced expression with the expected one; returns the error
  std::string compare(const std::string& what, const std::string& t, const lin::Map& w, bool skipping, bool once = true) {
    std::string s = lin::squeeze(t); if (s.size() < 2 || s[0] != '{' || s.back() != '}') return what + " is no list: " + t.substr(0, 200); s = lin::unbrace(s); lin::Map got; if (!s.empty()) try { got = lin::Parser(s, c.vars, c.fam).run(); } catch (const std::exception& e) { return what + " is unreadable (" + e.what() + "): " + t.substr(0, 300); } if (!s.empty() && !lin::documented(s)) return what + " is not in the documented format: " + t.substr(0, 300);
    if (once && (size_t)std::count(s.begin(), s.end(), '[') != got.size()) return what + " contains a function twice: " + t.substr(0, 300);
    for (auto& g : got) { auto q = w.find(g.first); if (q == w.end()) return what + " contains the function " + g.first + " which is not part of the result: " + t.substr(0, 300); if (skipping && std::count(c.skip.begin(), c.skip.end(), g.first)) return what + " contains the skipped function " + g.first; if (!ex::equal(g.second, q->second)) return what + ": the coefficient of " + g.first + " is wrong: " + t.substr(0, 300); }
    for (auto& q : w) if (!q.second.n.zero() && !got.count(q.first) && !(skipping && std::count(c.skip.begin(), c.skip.end(), q.first))) return what + ": the function " + q.first + " is missing: " + t.substr(0, 300); return ""; }
  std::string factors(const std::string& what, const std::string& t, const lin::Map& w) {
    std::string s = lin::unbrace(t); lin::Map got; if (!s.empty()) try { got = lin::Parser(s, c.vars, c.fam).run(); } catch (const std::exception& e) { return what + " is unreadable (" + e.what() + "): " + t.substr(0, 300); }
    for (auto& g : got) { auto q = w.find(g.first); if (q == w.end()) return what + " contains the function " + g.first + ": " + t.substr(0, 300); auto f = c.factor.find(g.first); if (f == c.factor.end()) continue; ex::Rat x = ex::parse(f->second, c.vars); ex::Poly a = g.second.n * x.d, b = x.n * g.second.d; if (a.zero() || b.zero() || !(ex::scal(a, b.c.begin()->second) == ex::scal(b, a.c.begin()->second))) return what + ": the factor of " + g.first + " is not proportional to " + f->second + ": " + t.substr(0, 300); }
    for (auto& q : w) if (!q.second.n.zero() && !got.count(q.first) && !std::count(c.skip.begin(), c.skip.end(), q.first)) return what + ": the function " + q.first + " is missing: " + t.substr(0, 300); return ""; }
  std::string basis(size_t i) { std::string t = slurp("basis_functions_" + c.e[i].first); std::map<std::string, int> n; std::string l; std::istringstream f(t); while (std::getline(f, l)) if (!l.empty()) ++n[l]; for (auto& x : n) if (x.second != 1 || !want[i].count(x.first)) return "the list of basis functions contains " + x.first + " " + std::to_string(x.second) + " times"; if (n.size() != want[i].size()) return "the list of basis functions is incomplete: " + t; return ""; }
  bool lonely(size_t i) { return want[i].size() == 1 && !c.skip.empty() && std::count(c.skip.begin(), c.skip.end(), want[i].begin()->first); } // the only function is skipped: nothing is written
  std::string outputs(bool fs) { for (size_t i = 0; i < c.e.size(); ++i) { std::string o = "out_" + c.e[i].first; if (!exists(o)) { if (lonely(i)) continue; return o + " has not been written"; } if (lonely(i)) continue; std::string e = fs ? factors(o, slurp(o), want[i]) : compare(o, slurp(o), want[i], true); if (e.empty()) e = basis(i); if (!e.empty()) return e; } return ""; }
  std::string coefficients() { for (size_t i = 0; i < c.e.size(); ++i) { std::string d = "coefficients_" + c.e[i].first; lin::Map seen; for (auto& f : list(d)) { std::string t = lin::unbrace(slurp(d + "/" + f)); lin::Map m; try { m = lin::Parser(t, c.vars, c.fam).run(); } catch (const std::exception& e) { return d + "/" + f + " is unreadable (" + e.what() + "): " + t; } if (m.size() != 1 || !lin::documented(t)) return d + "/" + f + " is not in the documented format: " + t; if (!seen.insert(*m.begin()).second) return m.begin()->first + " appears in two files of " + d; } std::string s = "{"; for (auto& x : seen) { auto w = want[i].find(x.first); if (w == want[i].end()) return d + " contains " + x.first; if (!ex::equal(w->second, x.second)) return d + ": the coefficient of " + x.first + " is wrong"; } for (auto& w : want[i]) if (!w.second.n.zero() && !seen.count(w.first) && !std::count(c.skip.begin(), c.skip.end(), w.first)) return d + ": the function " + w.first + " is missing"; } return ""; }
};
static std::string join(const V& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x; return s; }
static void bad(const Case& c, const std::string& hist, const std::string& msg) { vk::violation(hist + " " + c.name, msg + " (" + hist + ": " + c.name + ")", c.name + ": " + hist); }
static bool step(const Case& c, const std::string& hist, const V& args) { std::string msg; Kind k = session(args, msg); if (k == ENDED) return true; bad(c, hist + " [" + join(args) + "]", k == EXIT ? "refused: " + msg : msg); return false; }
static V with(V a, const std::string& in) { a.push_back(in); return a; }
static void sum(lin::Map& a, const lin::Map& b) { for (auto& m : b) { auto q = a.find(m.first); if (q == a.end()) a.insert(m); else q->second = ex::add(q->second, m.second); } }
static void drive(const Case& c, const V& opts, bool dir) {
  World w(c); std::string hist = "ff_insert " + join(opts) + (dir ? " directory" : ""); if (!vk::mine()) return; vk::cur(c.name + ": " + hist); vk::sample(c.name + ": " + hist); auto has = [&](const char* a, const char* b) { return std::count(opts.begin(), opts.end(), a) + std::count(opts.begin(), opts.end(), b) > 0; }; bool ni = has("-ni", "--nointerpolation"), fs = has("-fs", "--factorscan"); w.setup(); vk::count("configurations");
  auto check = [&](const std::string& h) { std::string e = ni ? w.coefficients() : w.outputs(fs); if (!e.empty()) { bad(c, h, e); return false; } vk::nontrivial(); return true; };
  auto all = [&](const V& o, const std::string& h) { if (dir) return step(c, h, with(o, "in")); for (auto& e : c.e) if (!step(c, h, with(o, e.first))) return false; return true; };
  if (!all(opts, hist) || !check(hist)) return; if (fs) return;
  // once more on top of what is there
  V more = opts; if (!ni) { more.insert(more.begin(), "-p"); more.insert(more.begin() + 1, "2"); } if (!all(more, hist + " twice") || !check(hist + " twice")) return;
  if (ni) { // the coefficients as input, then merged
    for (size_t i = 0; i < c.e.size(); ++i) { std::string d = "coefficients_" + c.e[i].first; if (list(d).empty()) continue; rec::remove_dir("replacements"); rec::remove_dir("config/skip_functions"); V files = list(d); if (!step(c, hist + ", coefficients", {"-nfs", d + "/"})) return; rec::remove_dir("outs"); mkdir("outs", 0755); for (auto& f : files) if (rename(("out_" + f).c_str(), ("outs/" + f).c_str())) { bad(c, hist + ", coefficients", "out_" + f + " is missing"); return; } unlink("outs_merged.out");
      if (!step(c, hist + ", merged", {"-m", i % 2 ? "outs" : "outs/"})) return; lin::Map m = w.want[i]; for (auto& s : c.skip) m.erase(s); std::string e = w.compare("outs_merged.out", slurp("outs_merged.out"), m, false); if (!e.empty()) { bad(c, hist + ", merged", e); return; } if (!step(c, hist + ", merged coefficients", {"-m", d})) return; e = w.compare(d + "_merged.out", slurp(d + "_merged.out"), m, false); if (!e.empty()) { bad(c, hist + ", merged coefficients", e); return; } } } }
static void merge(const Case& c) { if (!vk::mine()) return; std::string hist = "merge the expressions"; vk::cur(c.name + ": " + hist); vk::count("configurations"); World w(c); w.setup(); if (!step(c, hist, {"-m", "in"})) return; lin::Map m; for (auto& e : c.e) { lin::Map q = lin::Parser(lin::unbrace(e.second.substr(0, e.second.find(';'))), c.vars, c.fam).run(); sum(m, q); } std::string e = w.compare("in_merged.out", slurp("in_merged.out"), m, false, false); if (!e.empty()) { bad(c, hist, e); return; } vk::nontrivial(); if (!step(c, hist, {"-nfs", "in_merged.out"})) return; lin::Map s; for (auto& x : w.want) sum(s, x); if (s.size() == 1 && std::count(c.skip.begin(), c.skip.end(), s.begin()->first)) return; e = w.compare("out_in_merged.out", slurp("out_in_merged.out"), s, true); if (!e.empty()) bad(c, hist + " and insert", e); }
static void crashes(const Case& c, const V& opts, bool dir, bool twice) {
  World w(c); std::string hist0 = "ff_insert " + join(opts) + (dir ? " directory" : ""); w.setup(); V args = with(opts, dir ? "in" : c.e[0].first); std::string msg; Case one = c; if (!dir) one.e.resize(1); World v(one);
  static int nops = 0; { if (session(args, msg) != ENDED) { if (vk::mine()) bad(c, hist0, msg); return; } nops = sh()->nops; } struct L { std::string kind; long len; std::string path; }; std::vector<L> log; for (int i = 0; i < std::min(nops, 4000); ++i) log.push_back({sh()->log[i].kind, sh()->log[i].len, sh()->log[i].path});
  for (int i = 0; i < (int)log.size(); ++i) for (long pre : {0l, log[i].len / 2}) { if (pre && (log[i].kind != "write" || pre < 1)) continue; if (pre == 0 && log[i].len == 1 && false) continue; if (!vk::mine()) continue; crash::Plan p; p.op = i; if (pre) p.prefix = pre; w.setup(); std::string hist = hist0 + " killed at operation " + std::to_string(i) + (pre ? " (torn)" : "") + " (" + crash::op_class(log[i].kind, log[i].path) + ")"; vk::cur(c.name + ": " + hist);
      Kind k = session(args, msg, p); if (k != KILLED) { bad(c, hist, "not killed: " + msg); continue; } vk::count("kills");
      if (twice) { crash::Plan q; q.op = i / 2; k = session(args, msg, q); if (k == BAD) { bad(c, hist + " and again", msg); continue; } if (k == KILLED) vk::count("kills"); }
      k = session(args, msg); if (k == BAD) { bad(c, hist, msg); continue; } if (k == EXIT) { vk::count("refused"); if (getenv("VK_DEBUG")) fprintf(stderr, "REFUSED %s: %s\n", hist.c_str(), msg.c_str()); continue; } std::string e = v.outputs(false); if (!e.empty()) { bad(c, hist + ", resumed", e); continue; } vk::nontrivial(); } }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough(); mkdir("w", 0755); if (chdir("w")) abort();
  const std::string big = "123456789123456789123456789";
  std::vector<Case> cs = {
    {"one function", {"F"}, {"s", "t"}, {{"e.m", "F[1]*s^2*(t+1)*(s+t)/(s-3);"}}, {}, {}, {{"F[1]", "s^2*(t+1)/(s-3)"}}},
    {"two functions, sums", {"F", "G"}, {"s", "t"}, {{"e.m", "+ F[1]*s\n - G[2,{1, 2}]*t/(s+1)\n + F[1]*3/7\n"}}, {}, {}, {}},
    {"replacements", {"F", "F1"}, {"s", "t"}, {{"e.m", "{ -F1[1]*(s-t)/2 + F[1]*" + big + " };\n"}}, {"{\n F1[1] -> F[2]*s - F[3]*(s+t)/t,\n F[1] -> F[2]*t + F[2]*s,\n F[7] -> F[8]\n}\n"}, {}, {}},
    {"two tables, cancellation and zero", {"F1x", "F1", "INT"}, {"s", "t", "d"}, {{"e.m", "INT[\"F1\", 2, {0, 1}]*s*d + F1x[1]*(d-2) - F1[1]*(d-2) + F1[5]"}}, {"{ F1x[1] -> INT[0]*t }", "{\nF1[1] -> INT[0]*t,\nF1[5] -> 0\n}"}, {}, {}},
    {"skipped", {"F"}, {"x"}, {{"e.m", "F[1]*x+F[2]*x^2+F[3];"}}, {"{F[3]->F[1]*x}"}, {"F[2]"}, {}},
    {"only function skipped", {"F"}, {"x", "y"}, {{"e.m", "F[1]*x"}}, {}, {"F[1]"}, {}},
    {"everything zero", {"F"}, {"x", "y"}, {{"e.m", "F[1]*x-F[2]"}}, {"{F[1]->0,F[2]->0}"}, {}, {}},
    {"three expressions", {"F", "G"}, {"s", "t"}, {{"a.m", "F[1]*s-G[1]"}, {"b.m", "-F[1]*t/(s+t)+F[2]*" + big + "/11*s"}, {"c.m", "G[1]*(s+t)^3;"}}, {"{F[2]->G[1]*s+G[2]*t^2/(1-s)}"}, {}, {}},
    {"expressions with braces", {"F", "G"}, {"s", "t"}, {{"a", "{F[1]*s}"}, {"b", "{\n+ F[1]*t\n+ G[2]\n}\n"}}, {"{G[2]->F[1]}"}, {}, {}},
    {"one variable", {"F"}, {"s"}, {{"e.m", "F[1]*(s+1)/(s-1)*" + big + " + F[2]*" + big + big + " - F[3]"}}, {}, {}, {}},
    {"rational arguments", {"F"}, {"s", "t"}, {{"e.m", "F[1/2]*s+F[-1/2,3]*t"}}, {"{F[-1/2,3]->F[1/2]*t+F[3/2]}"}, {}, {}},
    {"factors", {"F"}, {"s", "t"}, {{"e.m", "F[1]*s*(t-1)^2/(s+4) - F[2]*(s+t)/(s-t) + F[3]*(s^2+1)*(t+s+1)/t"}}, {}, {}, {{"F[1]", "s*(t-1)^2/(s+4)"}, {"F[2]", "1"}, {"F[3]", "(s^2+1)/t"}}} };
  if (T) for (auto& co : {"x", "(x+y)^2/(x-y)", "(x*y+1)/(x^2+7)", "-3/(y+2)^3"}) for (auto& cp : {"y", "1/(x*y-1)", "(-2)"}) cs.push_back({std::string("F[a]*") + co + "+F[b]*" + cp, {"F"}, {"x", "y"}, {{"e.m", std::string("F[a]*") + co + "+F[b]*" + cp}, {"f.m", std::string("-F[a]*") + cp + "+F[c]*" + co}}, {std::string("{F[b]->F[c]*") + co + "-F[d]*" + cp + "}"}, {}, {}});
  { auto& a = vk::st().args; if (!a.empty()) { int i = atoi(a[0].c_str()); if (a[1] == "k") { crashes(cs[i], V(a.begin() + 3, a.end()), i == 7, a[2] == "2"); return vk::finish(); } drive(cs[i], V(a.begin() + 2, a.end()), a[1] == "d"); return vk::finish(); } }
  for (auto& c : cs) for (int dir = 0; dir < 2; ++dir) for (auto& o : std::vector<V> {{}, {"-nfs"}, {"-ni"}, {"-s"}, {"-p", "2"}, {"-p", "3", "-bs", "4"}, {"-bs", "2", "-nfs"}, {"-s", "-nfs", "-p", "2"}, {"-s", "-bs", "4"}, {"-ni", "-nfs"}, {"-fs"}, {"-fs", "-p", "2"}, {"--parallel", "2", "--bunchsize", "2", "--nofactorscan", "--save"}, {"--nointerpolation"}, {"--factorscan", "-s"}}) drive(c, o, dir);
  for (auto& c : cs) merge(c);
  for (size_t i : {2, 7, 9, 3, 0}) for (auto& o : std::vector<V> {{"-s"}, {"-s", "-nfs"}, {"-s", "-p", "2"}}) for (int tw = 0; tw < 2; ++tw) { if (!T && (i == 3 || i == 0 || (o.size() > 2 && tw) || (i == 7 && (tw || o.size() != 2)))) continue; crashes(cs[i], o, i == 7, tw); }
  // malformed input
  struct Bad { const char* what; const char* file; const char* text; V args; };
  for (auto& b : std::vector<Bad> {{"unknown function", "e.m", "H[1]*s", {}}, {"unknown variable", "e.m", "F[1]*u", {}}, {"two rules", "replacements/r9.m", "{F[1]->F[2],F[1]->F[3]}", {}}, {"rule in two tables", "replacements/r9.m", "{F[1]->F[2]}", {}}, {"term without function", "e.m", "F[1]+s", {}}, {"broken coefficient", "e.m", "F[1]*(s", {}}, {"no families", "config/functions", "", {}}, {"no variables", "config/vars", "# none\n", {}}, {"division", "e.m", "F[1]/s", {}}, {"unknown option", "x", "", {"-q"}}, {"no number", "x", "", {"-p", "two"}}, {"rule without function", "replacements/r9.m", "{F[2]->s}", {}}, {"empty", "e.m", "{}", {}}}) for (auto& o : std::vector<V> {{}, {"-ni"}, {"-nfs", "-p", "2"}}) {
    if (!vk::mine()) continue; Case c {std::string("malformed: ") + b.what, {"F"}, {"s", "t"}, {{"e.m", "F[1]*s+F[2]"}}, {"{F[1]->F[3]*t}"}, {}, {}}; if ((std::string(b.what) == "unknown variable" || std::string(b.what) == "no variables") && o == V {"-ni"}) continue; World w(c); w.setup(); put(b.file, b.text); V args = o; args.insert(args.end(), b.args.begin(), b.args.end()); args.push_back("e.m"); vk::cur(c.name); vk::count("configurations"); std::string msg; Kind k = session(args, msg); if (k == EXIT) { vk::nontrivial(); vk::count("refused"); continue; } bad(c, "ff_insert " + join(args), k == BAD ? msg : "malformed input is accepted: " + slurp("out_e.m")); }
  return vk::finish();
}
