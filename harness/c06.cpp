// C06: every token string up to a length; those which the documented grammar excludes must be rejected by every validating entry point.
#include "vk.hpp"
#include "exitguard.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ShuntingYardParser.hpp"
#include "firefly/ReconstHelper.hpp"
#include <fstream>
using namespace firefly;
static const std::vector<std::string> VARS = {"x", "y1"};
enum Class { VALID, INVALID, UNSPEC };
static bool opc(char c) { return c && strchr("+-*/^", c); }
static bool ws(char c) { return c && strchr(" \t\n\r", c); }
// Independent classification. Tokens: operators, parentheses, maximal runs of anything else.
static Class classify(const std::string& s, std::string& why) {
  struct Tok { char k; std::string t; bool sp; }; std::vector<Tok> t; bool sp = false;
  for (size_t i = 0; i < s.size();) { char c = s[i]; if (ws(c)) { sp = true; ++i; continue; } if (opc(c) || c == '(' || c == ')') { t.push_back({c, std::string(1, c), sp}); ++i; } else { std::string r; while (i < s.size() && !ws(s[i]) && !opc(s[i]) && s[i] != '(' && s[i] != ')') r += s[i++]; t.push_back({'o', r, sp}); } sp = false; }
  if (t.empty()) { why = "empty"; return UNSPEC; }
  bool unspec = false;
  // operands
  for (auto& x : t) if (x.k == 'o') { bool dig = true; for (char c : x.t) dig = dig && isdigit((unsigned char)c); if (dig) continue; bool declared = false; for (auto& v : VARS) declared = declared || v == x.t; if (!declared) { why = "operand " + x.t; return INVALID; } }
  int depth = 0;
  for (size_t i = 0; i < t.size(); ++i) {
    char k = t[i].k, pk = i ? t[i - 1].k : 0, nk = i + 1 < t.size() ? t[i + 1].k : 0;
    if (k == '(') { ++depth; if (pk == 'o' || pk == ')') { why = "implicit operator"; return INVALID; } if (nk == ')') { why = "empty parentheses"; return INVALID; } }
    if (k == ')') { if (--depth < 0) { why = "closing"; return INVALID; } }
    if (k == 'o') { if (pk == ')') { why = "implicit operator"; return INVALID; }
      if (pk == 'o') { bool d = isdigit((unsigned char)t[i].t[0]); for (char c : t[i - 1].t) d = d && isdigit((unsigned char)c); for (char c : t[i].t) d = d && isdigit((unsigned char)c); if (d) unspec = true; else { why = "implicit operator"; return INVALID; } } }
    if (opc(k)) {
      if (nk == 0 || nk == ')') { why = "missing right operand"; return INVALID; }
      bool sign = k == '+' || k == '-';
      if ((pk == 0 || pk == '(') && !sign) { why = "missing left operand"; return INVALID; }
      if (opc(pk)) { char ppk = i > 1 ? t[i - 2].k : 0; bool psign = pk == '+' || pk == '-'; if (!sign || !psign || pk == k || opc(ppk)) { why = "adjacent operators"; return INVALID; } }
      if (k == '^') { // exponent has to be an integer literal, possibly signed in parentheses; no chains
        size_t j = i + 1; int p = 0; while (j < t.size() && t[j].k == '(') { ++p; ++j; } if (p && j < t.size() && (t[j].k == '+' || t[j].k == '-')) ++j;
        if (j >= t.size() || t[j].k != 'o' || !isdigit((unsigned char)t[j].t[0])) unspec = true; else { ++j; for (int q = 0; q < p; ++q, ++j) if (j >= t.size() || t[j].k != ')') { unspec = true; break; } if (j < t.size() && t[j].k == '^') unspec = true; }
        if (p > 0 && !unspec) {} } }
  }
  if (depth) { why = "opening"; return INVALID; }
  return unspec ? UNSPEC : VALID;
}
static std::string dir;
static const char* SN[] = {"list", "list-equal", "add_otf", "parse_function", "file"};
static std::string run(int src, const std::string& e) {   // "" if rejected
  std::string res;
  eg::code() = -1;
  bool ex = exits([&] {
    std::vector<FFInt> v = {FFInt(7), FFInt(11)};
    ShuntingYardParser par;
    if (src == 0 || src == 1) par = ShuntingYardParser(std::vector<std::string> {e}, VARS, src == 1);
    else if (src == 2) { par = ShuntingYardParser(std::vector<std::string> {"x"}, VARS, false, true); std::string f = e; par.add_otf(f); }
    else if (src == 3) { std::string f = e; par.parse_function(f, VARS, true); }
    else par = ShuntingYardParser(dir + "/fun", VARS);
    if (src >= 2) par.precompute_tokens(true);
    auto r = par.evaluate_pre(v);
    res = r.empty() ? "no value" : "value " + std::to_string(r.back().n);
  });
  if (ex) return eg::code() == 0 ? "exit status 0" : "";
  return res;
}
static void one(const std::string& e, int nsrc) {
  std::string why; Class c = classify(e, why);
  if (c == UNSPEC) { vk::count("unspecified"); return; }
  if (nsrc > 4) { std::ofstream f(dir + "/fun"); f << e << ";"; }
  vk::cur(e);
  for (int src = 0; src < nsrc; ++src) {
    if (nsrc == 2 && src == 1) src = 3;
    std::string r = run(src, e);
    vk::eval(); if (r.empty()) vk::count("rejected");
    if (c == INVALID && !r.empty()) vk::violation("accepted:" + std::string(SN[src]) + ":" + why, "malformed expression '" + e + "' (" + why + ") yields " + r + " via " + SN[src], e);
    if (c == VALID && r.empty()) vk::violation("rejected:" + std::string(SN[src]) + ":" + e.substr(0, 30), "valid expression '" + e + "' is rejected via " + SN[src], e);
  }
}
static std::vector<std::string> TOK;
static void rec(const std::string& s, int left, int nsrc) { if (!s.empty()) { if (vk::mine()) { vk::nontrivial(); one(s, nsrc); } } if (!left) return; for (auto& t : TOK) rec(s + t, left - 1, nsrc); }
int main(int argc, char** argv) {
  vk::init(argc, argv); dir = getenv("VK_DIR"); if (!freopen("/dev/null", "w", stderr)) return 1;
  FFInt::set_new_prime(primes()[0]);
  bool T = vk::thorough();
  vk::sample("x+-"); vk::sample("2 x");
  TOK = {"2", "x", "+", "-", "*", "/", "^", "(", ")"}; rec("", T ? 7 : 6, 2);
  TOK = {"2", "y1", "-", "*", "^", "(", ")", " "}; rec("", T ? 6 : 5, 5);
  TOK = {"-", "+", "x", "(", ")"}; rec("", T ? 9 : 8, 2);
  // unknown characters, undeclared variables, literals glued to names: at every position of valid expressions and as tokens
  std::vector<std::string> odd = {"q", "X", "y", "x1", "xx", "2x", "x2", "1.5", ".", ",", "$", "~", "!", ";", "_", "{", "}", "[", "]", "=", "#", "%", "&", "|", "\"", "'", "\\", "?", ":", "<", ">", "@", "`", "\xc3\xa9", "\x01", "undeclaredundeclaredundeclared", "12345678901234567890x", "1e5", "0x10", "I", "Sqrt"};
  TOK = {"2", "x", "-", "/", "(", ")", "Q"};
  std::vector<std::string> bases = {"x", "2", "-x", "(x)", "x+y1", "2*x", "(x-2)/(y1+1)", "x^2", "x^(-2)", "-(x)", "1234567890123456789012"};
  for (auto& b : bases) for (auto& o : odd) for (size_t i = 0; i <= b.size(); ++i) for (int sp = 0; sp < 4; ++sp) { if (!vk::mine()) continue; vk::nontrivial(); std::string e = b.substr(0, i) + (sp & 1 ? " " : "") + o + (sp & 2 ? " " : "") + b.substr(i); if (o == ";") { std::string w; if (classify(e, w) == INVALID) one(e, 4); } else one(e, 5); }
  // replace each symbol
  for (auto& b : bases) for (auto& o : odd) for (size_t i = 0; i < b.size(); ++i) { if (!vk::mine()) continue; vk::nontrivial(); std::string e = b; e.replace(i, 1, o); one(e, o == ";" ? 4 : 5); }
  // position of the malformed expression in a collection
  for (int n = 1; n <= 3; ++n) for (int k = 0; k < n; ++k) for (auto& b : {"x+", "(x", "x)", "2 x", "q", "x**2", "()", "x^-5", "3*-x"}) for (int file = 0; file < 2; ++file) { if (!vk::mine()) continue;
    std::vector<std::string> l; for (int i = 0; i < n; ++i) l.push_back(i == k ? b : "x+1"); if (file) { std::ofstream f(dir + "/fun"); for (auto& e : l) f << e << ";\n"; }
    vk::cur(b); vk::eval(); vk::nontrivial(); bool r = exits([&] { if (file) ShuntingYardParser p(dir + "/fun", VARS); else ShuntingYardParser p(l, VARS); });
    if (!r || eg::code() == 0) vk::violation(std::string("collection:") + b, std::string("malformed expression '") + b + "' in a collection is accepted"); }
  // missing file
  if (vk::st().shard == 0) { bool r = exits([&] { ShuntingYardParser p(dir + "/no-such-file", VARS); }); if (!r || eg::code() == 0) vk::violation("missing-file", "a missing file is accepted"); }
  return vk::finish();
}
