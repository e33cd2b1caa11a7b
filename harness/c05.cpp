// C05: all histories of parser operations up to a depth; afterwards every retained expression must evaluate like the expression itself.
#include "vk.hpp"
#include "exitguard.hpp"
#include "exprref.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <fstream>
using namespace firefly;
static const std::vector<std::string> VARS = {"x", "y"};
// 0 and 2 denote the same function
static std::vector<std::string> EX = {"x/(3/7)+y", "-x^(-2)*5/12132132323213213212", "y+7/3*x", "(y-x)^3/(-2)"};
static const std::vector<int> CLS = {0, 1, 0, 3};
static const unsigned long PT[2][2] = {{7, 11}, {9223372036854775001ul % 9000000000000000000ul, 5}};
static int PR[3] = {0, 5, 298};
static unsigned long VAL[3][4][2];
static std::string dir;
static const std::string EX0 = EX[1];
enum { ADD0, ADD1, ADD2, ADDND0, ADDND2, ADDND3, PF1, PF2, OTFPRE, PRE, PREF, PRIME1, PRIME2, TRIM_LAST, TRIM_FIRST, TRIM_EVEN, TRIM_NONE, RESERVE, MOVE, COPY, NOPS };
static const char* ON[] = {"add_otf(0)", "add_otf(1)", "add_otf(2)", "add_otf(0,nodup)", "add_otf(2,nodup)", "add_otf(3,nodup)", "parse_function(1)", "parse_function(2)", "add_otf_precompute(1)", "precompute", "precompute(force)", "next prime", "previous prime", "trim(keep last)", "trim(keep first)", "trim(keep even)", "trim(keep all)", "reserve", "move_rpn", "copy"};
struct Cfg { int init; bool eq, keep; };
static const std::vector<std::vector<int>> INITS = {{}, {0}, {0, 1}, {1, 0, 2}, {0, 2, 3, 1}};
static std::vector<std::string> RPN1;
struct Model { std::vector<int> e; int prime = 0; bool pending = false, moved = false; };
static std::string name(const Cfg& c, const std::vector<int>& ops) { std::string s = "init=" + std::to_string(c.init) + (c.eq ? " equal" : "") + (c.keep ? " keep_rpn" : ""); for (int o : ops) s += std::string("; ") + ON[o]; return s; }
static const char* SRC[] = {"list", "file", "default"};
static void run(const Cfg& c, const std::vector<int>& ops, int src) {
  std::string nm = name(c, ops) + " (" + SRC[src] + ")"; if (!EX0.empty() && EX[1] != EX0) nm += " expression " + EX[1];
  auto fail = [&](const std::string& what) { vk::violation(std::string("history:") + what.substr(0, 40) + ":" + nm, what + " after " + nm, nm); };
  vk::cur(nm);
  Model m; ShuntingYardParser par;
  FFInt::set_new_prime(primes()[PR[0]]);
  bool ex = exits([&] {
    std::vector<std::string> l; for (int i : INITS[c.init]) { l.push_back(EX[i]); m.e.push_back(i); }
    if (src == 0) par = ShuntingYardParser(l, VARS, c.eq, c.keep);
    else if (src == 1) { std::ofstream f(dir + "/fun"); for (auto& e : l) f << e << ";\n"; f.close(); par = ShuntingYardParser(dir + "/fun", VARS, c.eq, c.keep); }
    else for (auto e : l) { par.parse_function(e, VARS); m.pending = true; }
    for (int o : ops) switch (o) {
      case ADD0: case ADD1: case ADD2: case ADDND0: case ADDND2: case ADDND3: {
        int k = o == ADD0 || o == ADDND0 ? 0 : o == ADD1 ? 1 : o == ADDND3 ? 3 : 2; bool nd = o >= ADDND0; std::string f = EX[k];
        size_t pos = nd ? par.add_otf(f, true) : par.add_otf(f);
        m.pending = true;
        if (c.eq && nd && pos < m.e.size() && CLS[m.e[pos]] == CLS[k]) break;   // refers to an equal function
        if (pos != m.e.size()) { fail("add_otf returns position " + std::to_string(pos) + " instead of " + std::to_string(m.e.size())); return; }
        m.e.push_back(k); break; }
      case PF1: case PF2: { int k = o == PF1 ? 1 : 2; std::string f = EX[k]; par.parse_function(f, VARS, o == PF2); m.e.push_back(k); m.pending = true; break; }
      case OTFPRE: { size_t pos = par.add_otf_precompute(RPN1); if (pos != m.e.size() && !c.eq) { fail("add_otf_precompute returns position " + std::to_string(pos) + " instead of " + std::to_string(m.e.size())); return; } m.e.push_back(1); m.pending = false; break; }
      case PRE: par.precompute_tokens(); m.pending = false; break;
      case PREF: par.precompute_tokens(true); m.pending = false; break;
      case PRIME1: m.prime = (m.prime + 1) % 3; FFInt::set_new_prime(primes()[PR[m.prime]]); break;
      case PRIME2: m.prime = (m.prime + 2) % 3; FFInt::set_new_prime(primes()[PR[m.prime]]); break;
      case TRIM_LAST: case TRIM_FIRST: case TRIM_EVEN: case TRIM_NONE: {
        if (m.e.empty()) break; std::unordered_set<size_t> keep; for (size_t i = 0; i < m.e.size(); ++i) if (o == TRIM_NONE || (o == TRIM_LAST && i + 1 == m.e.size()) || (o == TRIM_FIRST && i == 0) || (o == TRIM_EVEN && i % 2 == 0)) keep.insert(i);
        auto map = par.trim(keep); std::vector<int> ne(keep.size(), -1); bool ok = map.size() == keep.size();
        for (size_t i : keep) { auto it = map.find(i); if (it == map.end() || it->second >= ne.size() || ne[it->second] != -1) { ok = false; break; } ne[it->second] = m.e[i]; }
        if (!ok) { fail("trim returns no valid map of positions"); return; } m.e = ne; m.pending = false; break; }
      case RESERVE: par.reserve(10); break;
      case MOVE: { if (m.pending) break; std::vector<std::vector<std::string>> r; par.move_rpn(r); break; }
      case COPY: { ShuntingYardParser q(par); par = ShuntingYardParser(); par = q; break; }
    }
    unsigned long p = primes()[PR[m.prime]];
    if (FFInt::p != p) { fail("the prime field was changed"); return; }
    std::vector<std::vector<FFInt>> pt(2); for (int k = 0; k < 2; ++k) for (int v = 0; v < 2; ++v) pt[k].emplace_back(FFInt(PT[k][v]));
    std::vector<FFIntVec<2>> vp; for (int v = 0; v < 2; ++v) { std::array<FFInt, 2> a; a[0] = pt[0][v]; a[1] = pt[1][v]; vp.emplace_back(FFIntVec<2>(a)); }
    auto cmp = [&](const char* how, size_t n, auto get) { vk::eval(); if (n != m.e.size()) { fail(std::string(how) + " returns " + std::to_string(n) + " instead of " + std::to_string(m.e.size()) + " values"); return; }
      for (size_t i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) if (get(i, k) != VAL[m.prime][m.e[i]][k]) { fail(std::string(how) + ": wrong value of expression " + std::to_string(i)); return; } };
    { auto a = par.evaluate(pt[0]), b = par.evaluate(pt[1]); cmp("evaluate", a.size(), [&](size_t i, int k) { return (k ? b : a)[i].n; }); }
    par.precompute_tokens();
    { auto a = par.evaluate_pre(pt[0]), b = par.evaluate_pre(pt[1]); cmp("evaluate_pre", a.size(), [&](size_t i, int k) { return (k ? b : a)[i].n; }); }
    { auto a = par.evaluate_pre(vp); cmp("bunched evaluate_pre", a.size(), [&](size_t i, int k) { return a[i][k].n; }); }
    { auto a = par.evaluate_pre_2(vp); cmp("bunched evaluate_pre_2", a.size(), [&](size_t i, int k) { return a[i][k].n; }); }
    if (par.empty() != m.e.empty()) fail("empty() is wrong");
    if (!c.eq && par.get_size() != m.e.size()) fail("get_size() is wrong");
  });
  if (ex) fail("the program was stopped");
}
static void rec(const Cfg& c, std::vector<int>& ops, int left, int src, const std::vector<int>& alpha) {
  if (vk::mine()) { vk::nontrivial(); if (vk::st().idx % 40000 == 9) vk::sample(name(c, ops)); run(c, ops, src); }
  if (!left) return;
  for (int o : alpha) { ops.push_back(o); rec(c, ops, left - 1, src, alpha); ops.pop_back(); }
}
int main(int argc, char** argv) {
  vk::init(argc, argv); dir = getenv("VK_DIR"); if (!freopen("/dev/null", "w", stderr)) return 1;
  bool T = vk::thorough();
  auto values = [] { for (int q = 0; q < 3; ++q) for (size_t e = 0; e < EX.size(); ++e) for (int k = 0; k < 2; ++k) { std::map<std::string, ref::u> v {{"x", PT[k][0]}, {"y", PT[k][1]}}; VAL[q][e][k] = ref::Eval(EX[e], v, primes()[PR[q]]).run(); } };
  auto rpn1 = [] { ShuntingYardParser p(std::vector<std::string> {EX[1]}, VARS, false, true); RPN1 = p.get_rp_function(0); };
  values(); rpn1();
  std::vector<int> full, noeq; for (int o = 0; o < NOPS; ++o) { full.push_back(o); if (o != ADDND0 && o != ADDND2 && o != ADDND3 && o != ADD2 && o != PF2) noeq.push_back(o); }
  for (int in = 0; in < (int)INITS.size(); ++in) for (int eq = 0; eq < 2; ++eq) for (int keep = 0; keep < 2; ++keep) { Cfg c {in, eq != 0, keep != 0}; std::vector<int> o; rec(c, o, (T ? 4 : 3) + (in == 3 ? 1 : 0), 0, eq ? full : noeq); o.clear(); rec(c, o, T ? 3 : 1, 1, eq ? full : noeq); }
  std::vector<int> def; for (int o : noeq) def.push_back(o);
  for (int in = 1; in < (int)INITS.size(); ++in) { Cfg c {in, false, false}; std::vector<int> o; rec(c, o, T ? 4 : 3, 2, def); }
  // longer histories over the operations which change positions or the field
  std::vector<int> core = {ADD0, ADDND2, PRE, PRIME1, TRIM_LAST, TRIM_EVEN, OTFPRE};
  for (int eq = 0; eq < 2; ++eq) for (int keep = 0; keep < 2; ++keep) { Cfg c {3, eq != 0, keep != 0}; std::vector<int> o; rec(c, o, T ? 7 : 5, 0, core); }
  // every kind of literal at every kind of position, through changes of the field
  const std::string keepex = EX[1];
  std::vector<std::string> lits = {"0", "1", "7", "123456789", "999999999999999999", "1234567890123456789", "9223372036854775782", "9223372036854775783", "9223372036854775784", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456123"};
  std::vector<std::string> pats = {"L+x", "-L+x", "(-L)*x+y", "(-L)+x", "(+L)*x", "x-L*y", "x*(-L)", "L*x", "x*L", "(L)*x", "x/(y+L)", "L/(x+y)", "(-L)/(x+y)", "-L", "L", "x+L/3", "x+3/7*L", "x+(-L)/3", "x^(-2)*(-L)", "(x+L)^2", "x+L^2", "x+(-L)^3", "x-(y-(-L))", "L*L+x", "(-L)*(-L)+x", "-(-L)", "x+L-L"};
  std::vector<int> lops = {PRE, PREF, PRIME1, PRIME2, TRIM_EVEN, COPY};
  for (auto& l : lits) for (auto& q : pats) { std::string e; for (char ch : q) if (ch == 'L') e += l; else e += ch; EX[1] = e; bool zero = false; try { values(); } catch (...) { zero = true; } if (zero) continue; rpn1(); for (int in : {1, 2, 3}) { if (in == 1) continue; Cfg c {in, false, in == 3}; std::vector<int> o; rec(c, o, T ? 4 : (in == 2 ? 3 : 1), 0, lops); } }
  EX[1] = keepex; values(); rpn1();
  return vk::finish();
}
