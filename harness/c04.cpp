// C04: every expression of the documented grammar up to a size, every documented way of evaluating it, against an independent evaluator.
#include "vk.hpp"
#include "exitguard.hpp"
#include "exprref.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <fstream>
#include <memory>
using namespace firefly;
static std::vector<std::string> VARS = {"x", "y1"};
static std::vector<std::vector<unsigned long>> PTS = {{7, 11}, {9223372036854775000ul, 3}, {0, 1}, {1, 9223372036854775782ul}};
static std::string canon(const std::string& s) { std::string r; for (char c : s) if (!strchr(" \t\n\r", c)) r += c; for (;;) { size_t a = r.find("+-"), b = r.find("-+"); size_t i = a < b ? a : b; if (i == std::string::npos) break; r.replace(i, 2, "-"); }
  // redundant double parentheses around exponents
  for (;;) { size_t i = r.find("^(("); if (i == std::string::npos) break; r.erase(i + 1, 1); size_t j = r.find("))", i); r.erase(j, 1); } return r; }
struct Ref { unsigned long v; bool div0; };
static Ref refval(const std::string& s, const std::vector<unsigned long>& pt, unsigned long p) {
  std::map<std::string, ref::u> m; for (size_t i = 0; i < VARS.size(); ++i) m[VARS[i]] = pt[i] % p; std::string c = canon(s); ref::Eval e(c, m, p); Ref r; r.v = e.run(); r.div0 = e.div0; return r; }
static void bad(const std::string& how, const std::string& e, const std::string& got, const std::string& want) { vk::violation("value:" + how + ":" + e.substr(0, 60), "expression '" + e + "' evaluated by " + how + " gives " + got + " instead of " + want, e); }
template<int N> static std::vector<FFIntVec<N>> bunch() { std::vector<FFIntVec<N>> r; for (size_t v = 0; v < VARS.size(); ++v) { std::array<FFInt, N> l; for (int i = 0; i < N; ++i) l[i] = FFInt(PTS[i % PTS.size()][v]); r.emplace_back(FFIntVec<N>(l)); } return r; }
static bool EQUAL = false;
template<typename G> static void compare(const std::string& how, const std::vector<std::string>& ex, const std::vector<std::vector<Ref>>& ref, size_t p, const G& get, size_t n) {
  if (n != ex.size()) { vk::violation("count:" + how, how + " returned " + std::to_string(n) + " values for " + std::to_string(ex.size()) + " expressions", ex[0]); return; }
  // functions which are equal as rational functions may be merged although they are undefined at different points
  if (EQUAL) for (auto& r : ref[p]) if (r.div0 && p >= 2) return;
  for (size_t i = 0; i < n; ++i) if (!ref[p][i].div0) { vk::eval(); unsigned long g = get(i); if (g != ref[p][i].v) bad(how, ex[i], std::to_string(g), std::to_string(ref[p][i].v)); } }
enum Src { LIST, FILE_, FILE2, OTF, PFUN, NSRC };
static const char* SN[] = {"list", "file", "file-nl", "add_otf", "parse_function"};
static std::string dir;
static bool build(int src, const std::vector<std::string>& ex, bool keep, bool equal, ShuntingYardParser& out) {
  if (src == FILE_ || src == FILE2) { std::ofstream f(dir + "/fun"); for (size_t i = 0; i < ex.size(); ++i) f << ex[i] << (src == FILE_ ? ";" : (i + 1 < ex.size() ? " ;\n\n" : "\n")); f.close(); }
  return !exits([&] { switch (src) {
    case LIST: out = ShuntingYardParser(ex, VARS, equal, keep); break;
    case FILE_: case FILE2: out = ShuntingYardParser(dir + "/fun", VARS, equal, keep); break;
    case OTF: out = ShuntingYardParser(std::vector<std::string>(), VARS, equal, keep); for (auto e : ex) out.add_otf(e); out.precompute_tokens(true); break;
    case PFUN: for (auto e : ex) out.parse_function(e, VARS, true); if (!keep) out.precompute_tokens(); break; } }); }
static void run(int src, bool keep, bool equal, const std::vector<std::string>& ex, int nprimes) {
  vk::cur(ex[0] + (ex.size() > 1 ? " ... " + ex.back() : "") + " via " + SN[src]);
  FFInt::set_new_prime(primes()[0]);
  ShuntingYardParser par;
  if (!build(src, ex, keep, equal, par)) {
    if (ex.size() == 1) vk::violation(std::string("rejected:") + SN[src] + ":" + ex[0].substr(0, 60), "the documented expression '" + ex[0] + "' is rejected (" + SN[src] + ")", ex[0]);
    else { std::vector<std::string> a(ex.begin(), ex.begin() + ex.size() / 2), b(ex.begin() + ex.size() / 2, ex.end()); run(src, keep, equal, a, nprimes); run(src, keep, equal, b, nprimes); }
    return; }
  vk::count("parsers"); EQUAL = equal;
  for (int pr = 0; pr < nprimes; ++pr) {
    unsigned long p = primes()[pr * 3];
    FFInt::set_new_prime(p);
    std::string tag = std::string(SN[src]) + (keep ? ":rpn" : ":norpn") + (equal ? ":equal" : "") + ":prime" + std::to_string(pr) + ":";
    std::vector<std::vector<Ref>> ref(PTS.size());
    for (size_t i = 0; i < PTS.size(); ++i) for (auto& e : ex) ref[i].push_back(refval(e, PTS[i], p));
    auto all = [&](const std::string& how, auto f) {
      std::string t = tag + how;
      bool rej = exits([&] { for (size_t i = 0; i < PTS.size(); ++i) { std::vector<FFInt> v; for (auto x : PTS[i]) v.emplace_back(FFInt(x)); auto r = f(v); compare(t, ex, ref, i, [&](size_t k) { return r[k].n; }, r.size()); } });
      if (rej) vk::violation("exit:" + t, t + " stopped the program", ex[0]);
    };
    auto allv = [&](const std::string& how, auto f, auto pts) {
      std::string t = tag + how;
      bool rej = exits([&] { auto r = f(pts); for (size_t l = 0; l < pts[0].size(); ++l) compare(t, ex, ref, l % PTS.size(), [&](size_t k) { return r[k][l].n; }, r.size()); });
      if (rej) vk::violation("exit:" + t, t + " stopped the program", ex[0]);
    };
    // the plain evaluation needs no precomputation after a change of the field
    all("evaluate", [&](auto& v) { return par.evaluate(v); });
    if (keep || pr == 0) allv("evaluate<4>", [&](auto& v) { return par.evaluate(v); }, bunch<4>());
    par.precompute_tokens();
    all("evaluate_pre", [&](auto& v) { return par.evaluate_pre(v); });
    all("evaluate_pre_2", [&](auto& v) { return par.evaluate_pre_2(v); });
    allv("evaluate_pre<4>", [&](auto& v) { return par.evaluate_pre(v); }, bunch<4>());
    allv("evaluate_pre_2<2>", [&](auto& v) { return par.evaluate_pre_2(v); }, bunch<2>());
  }
  FFInt::set_new_prime(primes()[0]);
}
// ---- generation of all expressions with up to n operands
static std::vector<std::string> batch; static int BSRC, NP; static bool BKEEP, BEQ;
static uint64_t total = 0;
static void flush() { if (batch.size()) { run(BSRC, BKEEP, BEQ, batch, NP); batch.clear(); } }
static std::vector<std::string> OPERANDS, OPS, EXPS, SIGNS;
static int MAXOP, MAXPAR;
static bool own = true;
static void emit(const std::string& s) { ++total; if (getenv("COUNT")) return; if (!vk::mine()) return; vk::nontrivial(); if (total % 5000 == 1) vk::sample(s); batch.push_back(s); if (batch.size() == 250) flush(); }
// state: s so far, n operands used, depth of open parentheses, npar parentheses used
static void operand(const std::string& s, int n, int d, int npar, int np, bool start);
static int MAXPOW;
static void after(const std::string& s, int n, int d, int npar, int np, bool powered) {
  if (d == 0) emit(s);
  if (d > 0) after(s + ")", n, d - 1, npar, np, false);
  if (!powered && np < MAXPOW) for (auto& e : EXPS) after(s + "^" + e, n, d, npar, np + 1, true);
  if (n < MAXOP) for (auto& o : OPS) operand(s + o, n, d, npar, np, false);
}
static void operand(const std::string& s, int n, int d, int npar, int np, bool start) {
  for (auto& o : OPERANDS) after(s + o, n + 1, d, npar, np, false);
  if (npar < MAXPAR) operand(s + "(", n, d + 1, npar + 1, np, true);
  if (start) for (auto& g : SIGNS) operand(s + g, n, d, npar, np, false);
}
static void family(const char* name, int src, bool keep, bool eq, int np, int mo, int mp, int mw, std::vector<std::string> ops, std::vector<std::string> os, std::vector<std::string> ex, std::vector<std::string> sg) {
  BSRC = src; BKEEP = keep; BEQ = eq; NP = np; MAXOP = mo; MAXPAR = mp; MAXPOW = mw; OPERANDS = ops; OPS = os; EXPS = ex; SIGNS = sg; uint64_t t = total; operand("", 0, 0, 0, 0, true); flush(); if (vk::st().shard == 0) vk::count(std::string("expressions_") + name, total - t); }
static void lexical() {
  std::vector<std::string> nums = {"0", "1", "00", "007", "9", "2147483647", "4294967297", "9223372036854775782", "9223372036854775783", "9223372036854775784", "9223372036854775807", "18446744073709551615", "18446744073709551616", "100000000000000000", "999999999999999999", "1000000000000000000", "1234567890123456789012345678901234567890", "000000000000000000000000003", "85070591730234615565843651857942052864"};
  std::vector<std::string> names = {"a", "Z", "x1", "x12", "x", "x123456789012345", "abcdefghijklmnop", "aB", "e5", "X"};
  std::vector<std::string> ctx = {"T", "-T", "+T", "(T)", "(-T)", "(+T)", "((T))", "(((-T)))", "-(T)", "-(-T)", "T^2", "-T^2", "(-T)^2", "(-T^2)", "T^(-3)", "-T^(-3)", "(-T^(-3))", "x-T", "x+-T", "x-+T", "x*T", "x/T", "T/x", "T/U", "T/U/x", "x*T/U", "x/(T/U)", "x/(-T/U)", "x/(-T)", "x-T/U", "(T/U)^2", "-(T/U)", "T*U", "(T-U)*x", "T+U", "T-U*U", "T/(U/(T/U))", "x^2/(T/U)", "-x/(T/U)", "(x+1)/(T/U)", "x/T/U", "T^3/U", "2^3/T", "x*(-T)", "x*(-T/U)", "x-(-T)", "x-(-(T))", "T*(-(U))^3", "-T*U", "+(T)", "-(T)^2", "-(T)*U", "(-(T)^2)"};
  std::vector<std::string> atoms = nums; for (auto& n : names) atoms.push_back(n);
  std::vector<std::string> ov = VARS; std::vector<std::vector<unsigned long>> op = PTS;
  VARS = names; PTS.clear(); for (int k = 0; k < 3; ++k) { std::vector<unsigned long> p; for (size_t i = 0; i < names.size(); ++i) p.push_back((i * 7919 + 13 + k * 1000003ul) * (k == 2 ? 1152921504606846975ul % 9223372036854775783ul : 1)); for (auto& v : p) v %= 9223372036854775783ul; PTS.push_back(p); }
  for (int src = 0; src < NSRC; ++src) for (int keep = 0; keep < 2; ++keep) for (auto& c : ctx) { if (!vk::mine()) continue; std::vector<std::string> b;
    bool u = c.find('U') != std::string::npos;
    for (auto& t : atoms) for (auto& w : atoms) { if (!u && &w != &atoms[0]) continue; std::string e; for (char k : c) { if (k == 'T') e += t; else if (k == 'U') e += w; else e += k; } b.push_back(e); vk::nontrivial(); }
    run(src, keep, false, b, 2); }
  VARS = ov; PTS = op;
}
static void whitespace() {
  std::vector<std::string> base = {"x+y1*3", "(x-2)/(y1^2+x)", "-x^2", "(-x)^(-2)", "x+-y1", "x-+y1", "-(x+1)*(-2)", "((x+1))^2/3", "x^(-12)*(-(x-2))", "12132132323213213212/33*x+12*3-x^100*y1^2"};
  const char* ws[] = {" ", "\n", "\t", "\r", "\r\n", "  \n "};
  for (int src = 0; src < NSRC; ++src) for (auto& b : base) for (auto w : ws) { if (!vk::mine()) continue; std::vector<std::string> e;
    auto al = [](char c) { return isalnum((unsigned char)c) != 0; };
    std::string everywhere = w;
    for (size_t i = 0; i <= b.size(); ++i) { if (i > 0 && i < b.size() && al(b[i - 1]) && al(b[i])) { everywhere += b[i]; continue; } e.push_back(b.substr(0, i) + w + b.substr(i)); if (i < b.size()) everywhere += b[i]; everywhere += w; }
    // everywhere: rebuild cleanly
    everywhere = w; for (size_t i = 0; i < b.size(); ++i) { everywhere += b[i]; if (!(i + 1 < b.size() && al(b[i]) && al(b[i + 1]))) everywhere += w; }
    e.push_back(everywhere); vk::nontrivial(e.size()); run(src, true, false, e, 1); }
}
int main(int argc, char** argv) {
  vk::init(argc, argv); dir = getenv("VK_DIR"); if (!freopen("/dev/null", "w", stderr)) return 1;
  bool T = vk::thorough();
  family("deep", LIST, true, false, 2, T ? 4 : 3, T ? 1 : 2, 1, {"2", "x", "y1"}, {"+", "-", "*", "/", "-+"}, {"3", "(-2)"}, {"-"});
  family("powers", LIST, true, false, 2, T ? 3 : 2, 2, 3, {"2", "x"}, {"-", "*", "/"}, {"3", "(-2)"}, {"-"});
  family("signs", LIST, true, false, 2, 3, T ? 2 : 1, 1, {"3", "x"}, {"-", "/", "+-"}, {"2", "(-1)", "(+2)"}, {"-", "+", "+-", "-+"});
  family("parens", LIST, true, false, 1, 2, T ? 4 : 3, 2, {"5", "x"}, {"-", "/"}, {"2", "((-3))"}, {"-", "+"});
  family("rationals", LIST, true, false, 2, T ? 5 : 4, 2, 0, {"3", "7", "x"}, {"-", "/"}, {}, {"-"});
  for (int src = 0; src < NSRC; ++src) for (int keep = 0; keep < 2; ++keep) for (int eq = 0; eq < (src == PFUN ? 1 : 2); ++eq)
    family("sources", src, keep, eq, 2, 2, 1, 1, {"2", "x", "y1"}, {"+", "-", "*", "/"}, {"3", "(-2)"}, {"-"});
  if (getenv("COUNT")) return vk::finish(); lexical(); whitespace();
  return vk::finish();
}
