// C21, first part: the parser of ff_insert. Every expression and replacement table up to a size, and every string of tokens up to a length.
#include "vk.hpp"
#include "exitguard.hpp"
#include "lin.hpp"
#include "firefly/AmplitudeParser.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ReconstHelper.hpp"
#include <memory>
using namespace firefly;
typedef std::vector<std::string> V;
struct In { V vars, fam; std::string e; V tables; std::string text() const { std::string s = "functions"; for (auto& f : fam) s += " " + f; s += "; variables"; for (auto& f : vars) s += " " + f; s += "; expression: " + e; for (auto& t : tables) s += "; replacements: " + t; return s; } };
static FFInt evalp(const ex::Poly& p, const std::vector<FFInt>& x) { FFInt r(0); for (auto& m : p.c) { FFInt t(m.second); for (size_t i = 0; i < x.size(); ++i) for (uint32_t k = 0; k < m.first[i]; ++k) t *= x[i]; r += t; } return r; }
// Returns "refused", or the empty text with the coefficients; the error text otherwise
struct Got { bool refused = false; std::string stage; std::vector<std::pair<std::string, std::string>> unsimplified; std::vector<std::array<FFInt, 4>> values; };
static const uint64_t PT[3][3] = {{3, 1000003, 77}, {123456789, 5, 987654321987ull}, {11, 9223372036854775000ull, 400}};
static Got run(const In& in) {
  Got g; eg::code() = -1; static std::string stage; stage = "expression";
  bool ex = exits([&] {
    AmplitudeParser ap(in.vars, in.fam); std::string e = in.e; ap.parse_amplitude_string(e); stage = "table"; for (auto& t : in.tables) { std::string s = t; ap.parse_ibp_table_string(s); } stage = "coefficients"; size_t m = ap.check_for_unreplaced_masters();
    for (size_t i = 0; i < m; ++i) { g.unsimplified.push_back({ap.get_master(i), ap.get_unsimplified_coef(i)}); auto bb = ap.build_black_box(i); bb.prime_changed(); std::array<FFInt, 4> r; std::vector<FFIntVec<2>> b; size_t n = in.vars.size();
      for (int k = 0; k < 2; ++k) { std::vector<FFInt> x; for (size_t q = 0; q < n; ++q) x.push_back(FFInt(PT[k][q])); auto y = bb(x); if (y.size() != 1) { g.stage = "the black box returns " + std::to_string(y.size()) + " values"; return; } r[k] = y[0]; }
      for (size_t q = 0; q < n; ++q) b.emplace_back(FFIntVec<2>(std::array<FFInt, 2> {{FFInt(PT[0][q]), FFInt(PT[2][q])}})); auto y = bb(b); r[2] = y[0][0]; r[3] = y[0][1]; g.values.push_back(r); } });
  if (ex) { g.refused = true; g.stage = eg::code() == 0 ? "exit status 0" : stage; } return g; }
static void one(const In& in) {
  vk::cur(in.text()); enum { VALID, EITHER, INVALID } cls = VALID; lin::Map want; std::string why;
  try { lin::Parser p(lin::unbrace(in.e), in.vars, in.fam); lin::Map m = p.run(); if (!lin::documented(lin::unbrace(in.e))) cls = EITHER; lin::Rules r; std::string unj; for (auto& t : in.tables) lin::table(t, in.vars, in.fam, r, [&](const std::string& f) { return m.count(f) != 0; }); if (!r.doc) cls = EITHER; want = lin::apply(m, r); }
  catch (const lin::Reject& e) { cls = INVALID; why = e.what(); } catch (const lin::Unjudged&) { vk::count("unjudged"); return; }
  Got g = run(in); vk::eval(); if (cls != EITHER || !g.refused) vk::nontrivial(); if (g.refused) vk::count("refused"); else vk::count("accepted");
  if (!g.refused && !g.stage.empty()) { vk::violation("blackbox", g.stage + " (" + in.text() + ")"); return; } if (g.refused && g.stage == "exit status 0") { vk::violation("exit0", "refused with exit status 0 (" + in.text() + ")"); return; }
  if (cls == INVALID) { if (!g.refused) { std::string s; for (auto& u : g.unsimplified) s += " " + u.first + "*(" + u.second + ")"; vk::violation("accepted " + in.text().substr(0, 200), "malformed input (" + why + ") is accepted as" + (s.empty() ? " nothing" : s) + " (" + in.text() + ")"); } return; }
  if (g.refused) { if (cls == VALID) vk::violation("refused " + in.text().substr(0, 200), "input in the documented format is refused when parsing the " + g.stage + " (" + in.text() + ")"); return; }
  std::map<std::string, int> seen;
  for (size_t i = 0; i < g.unsimplified.size(); ++i) { auto& u = g.unsimplified[i]; auto bad = [&](const std::string& k, const std::string& m) { vk::violation(k + " " + in.text().substr(0, 200), m + " (" + in.text() + ")"); };
    if (seen[u.first]++) { bad("twice", "the basis function " + u.first + " appears twice"); return; } auto w = want.find(u.first); if (w == want.end()) { bad("surplus", "the basis function " + u.first + " appears which is not part of the result"); return; }
    try { if (!ex::equal(ex::parse(u.second, in.vars), w->second)) { bad("coefficient", "the coefficient of " + u.first + " is wrong: " + u.second); return; } } catch (const std::exception& e) { bad("coefficient", "the coefficient of " + u.first + " is unreadable: " + u.second + ": " + e.what()); return; }
    static const int IDX[4] = {0, 1, 0, 2}; for (int k = 0; k < 4; ++k) { std::vector<FFInt> x; for (size_t q = 0; q < in.vars.size(); ++q) x.push_back(FFInt(PT[IDX[k]][q])); FFInt d = evalp(w->second.d, x); if (d == FFInt(0)) continue; if (g.values[i][k] * d != evalp(w->second.n, x)) { bad("value", "the black box of " + u.first + " returns a wrong value"); return; } } }
  for (auto& w : want) if (!w.second.n.zero() && !seen.count(w.first)) { vk::violation("missing " + in.text().substr(0, 200), "the basis function " + w.first + " is missing (" + in.text() + ")"); return; }
}
static V TOK; static In base; static int where;
static void strings(const std::string& s, int left) { if (!s.empty() && vk::mine()) { In in = base; if (where == 0) in.e = s; else in.tables.push_back(s); one(in); } if (!left) return; for (auto& t : TOK) strings(s + t, left - 1); }
static void perms(V fam, const std::function<void(const V&)>& f) { std::sort(fam.begin(), fam.end()); do f(fam); while (std::next_permutation(fam.begin(), fam.end())); }
int main(int argc, char** argv) {
  vk::init(argc, argv); if (!getenv("VK_DEBUG") && !freopen("/dev/null", "w", stderr)) return 1; const char* d = getenv("VK_DIR"); if (d && chdir(d) != 0) abort(); if (symlink("/dev/null", "ff_insert.log") != 0) {} FFInt::set_new_prime(primes()[0]); bool T = vk::thorough();
  { auto& a = vk::st().args; if (a.size() >= 1) { In in; in.vars = {"s", "t"}; in.fam = {"F", "G", "H"}; in.e = a[0]; in.tables.assign(a.begin() + 1, a.end()); one(in); return vk::finish(); } }
  // strings of tokens
  base.vars = {"s", "t"}; base.fam = {"F", "G", "H"}; where = 0; TOK = {"F[1]", "G[2]", "s", "2", "+", "-", "*", "/", "(", ")"}; vk::sample("F[1]*s-G[2]"); strings("", T ? 6 : 5);
  TOK = {"F[1]", "s", "+", "-", "*", "(", ")"}; if (T) strings("", 7); TOK = {"F[1]*", "+F[1]", "-G[2]*", "s", "/(t+2)", "(s-t)", "*", "^2", "{", "}", ";", " "}; strings("", T ? 6 : 5);
  TOK = {"F", "[", "]", "1", "*", "s", "+", ","}; strings("", T ? 7 : 6);
  where = 1; base.e = "F[1]*s-G[2]*t"; TOK = {"F[1]", "G[2]", "H[3]", "->", "s", "+", "*", ",", "0"}; strings("", T ? 7 : 6); TOK = {"F[1]->", "G[2]->", ",F[1]->", "H[3]", "H[4,{1,2}]*", "-", "t", "{", "}", "0"}; strings("", T ? 6 : 5);
  TOK = {"F[1]->H[3]", "G[2]->H[3]*s", "H[3]->H[5]", ",", "+", "-H[4]", "*t", "0"}; strings("", T ? 6 : 5);
  // expressions and tables in the documented format
  struct Fm { V fam, vars, f; }; std::vector<Fm> fs = {{{"F", "G"}, {"s", "t"}, {"F[1]", "F[a,{1,2}]", "G[\"F\",-1]", "G[1]"}}, {{"F", "F1"}, {"s", "t"}, {"F[1]", "F1[1]", "F1[2]", "F[2]"}}, {{"F", "F1", "F1x12"}, {"s", "t"}, {"F1x12[1]", "F1[1]", "F[1]", "F1x12[0,1]"}}, {{"F", "AF", "FA"}, {"s", "t"}, {"AF[1]", "FA[1]", "F[1]", "FA[2]"}}, {{"F", "G"}, {"Fs", "tG"}, {"F[1]", "G[1]", "F[Fs]", "G[tG,tG]"}}, {{"INT", "T"}, {"INTs", "T1"}, {"INT[1]", "T[1]", "INT[T]", "T[INT]"}}, {{"f2", "f", "f22"}, {"f2x", "f3"}, {"f2[1]", "f22[1]", "f[1]", "f[22]"}}};
  auto coefs = [](const V& v) { const std::string s = v[0], t = v[1]; return V {"", "*" + s, "*(" + s + "-" + t + ")/2", "*2*" + t + "^2", "*(-" + s + ")", "*0", "*" + s + "/(" + t + "+1)^2*3"}; };
  std::vector<std::function<V(const Fm&, const V&)>> tabs = {
    [](const Fm&, const V&) { return V {}; }, [](const Fm& m, const V&) { return V {"{" + m.f[0] + "->" + m.f[2] + "*2}"}; }, [](const Fm& m, const V& c) { return V {"{" + m.f[0] + " -> " + m.f[2] + c[1] + " - " + m.f[1] + c[2] + "}"}; },
    [](const Fm& m, const V&) { return V {"{" + m.f[0] + "->0}"}; }, [](const Fm& m, const V& c) { return V {"{" + m.f[0] + "->" + m.f[3] + c[1] + ",\n" + m.f[1] + "->" + m.f[3] + c[6] + ",\n" + m.f[2] + "->-" + m.f[3] + "}\n"}; }, [](const Fm& m, const V& c) { return V {m.f[1] + "->" + m.f[2] + c[3] + "-" + m.f[2] + c[1], m.f[0] + "->" + m.f[1]}; },
    [](const Fm& m, const V& c) { return V {"{" + m.f[1] + "->0," + m.f[0] + "->" + m.f[1] + c[4] + "}", "{" + m.f[3] + "->" + m.f[0] + "}"}; }, [](const Fm& m, const V&) { return V {"{" + m.f[0] + "->" + m.f[1] + "," + m.f[1] + "->" + m.f[0] + "}"}; }, [](const Fm& m, const V& c) { return V {"{" + m.f[3] + "->" + m.f[2] + c[2] + "," + m.f[3] + "->" + m.f[1] + "}"}; },
    [](const Fm& m, const V& c) { return V {"{" + m.f[0] + "->" + m.f[2] + c[2] + "}", "{" + m.f[0] + "->" + m.f[2] + c[2] + "}"}; }, [](const Fm& m, const V& c) { return V {"{\n  " + m.f[0] + " -> \t" + m.f[0] + c[2] + "\n}"}; } };
  for (auto& m : fs) { V c = coefs(m.vars); perms(m.fam, [&](const V& fam) { for (auto& tab : tabs) { In in; in.vars = m.vars; in.fam = fam; in.tables = tab(m, c);
      for (int lay = 0; lay < 3; ++lay) for (size_t a = 0; a < m.f.size(); ++a) for (auto& ca : c) for (int sa = 0; sa < 2; ++sa) {
        std::string one1 = (sa ? "-" : lay ? "+" : "") + m.f[a] + ca; auto put = [&](const std::string& e) { in.e = lay == 2 ? "{\n" + e + "\n}\n" : e; if (vk::mine()) one(in); }; put(one1);
        for (size_t b = 0; b < m.f.size(); ++b) for (auto& cb : c) for (int sb = 0; sb < 2; ++sb) { if (lay == 1 && !T) continue; std::string two = one1 + (lay == 2 ? std::string(sb ? "\n - " : "\n + ") : std::string(sb ? "-" : "+")) + m.f[b] + cb; put(two);
          if (lay == 0) for (size_t e = 0; e < (T ? m.f.size() : 2); ++e) for (size_t ce = 0; ce < (T ? c.size() : 3); ++ce) for (int se = 0; se < 2; ++se) { if (!T && (&cb - &c[0] > 3 || &ca - &c[0] > 2)) continue; put(two + (se ? "-" : "+") + m.f[e] + c[ce]); } } } } }); }
  return vk::finish();
}
