// Reference semantics of the expressions of ff_insert: linear combinations of functions NAME[...] with rational coefficients.
#pragma once
#include "exact.hpp"
#include <functional>
namespace lin {
  typedef std::map<std::string, ex::Rat> Map;     // support is symbolic: cancelled functions stay with coefficient zero
  struct Reject : std::runtime_error { using std::runtime_error::runtime_error; };      // has no meaning as linear combination of functions
  struct Unjudged : std::runtime_error { using std::runtime_error::runtime_error; };
  inline std::string squeeze(const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\t' && c != '\n' && c != '\r') r += c; return r; }
  struct Val { ex::Rat c; Map f; bool hasc = false; };
  // The value of any arithmetic expression; functions may occur in any place which keeps it linear.
  struct Parser {
    std::string s; const std::vector<std::string>& v; const std::vector<std::string>& fam; int n; size_t i = 0; bool strict = true;  // strict is cleared where the documented format is left
    Parser(const std::string& t, const std::vector<std::string>& v_, const std::vector<std::string>& fam_) : s(squeeze(t)), v(v_), fam(fam_), n((int)v_.size()) {}
    [[noreturn]] void bad(const std::string& w) { throw Reject(w + " at " + std::to_string(i) + " of " + s.substr(0, 200)); }
    char pk() { return i < s.size() ? s[i] : 0; }
    ex::Rat cst(const mpz_class& m) { return ex::Rat {ex::constant(n, m), ex::constant(n, 1)}; }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '"'; }
    Val lift(const ex::Rat& r) { Val x; x.c = r; x.hasc = true; return x; }
    Val atom() { char c = pk(); if (c == '(') { ++i; Val r = expr(); if (pk() != ')') bad("missing )"); ++i; return r; }
      if (!idc(c)) bad("operand expected"); size_t b = i; while (i < s.size() && idc(s[i])) ++i; std::string nm = s.substr(b, i - b);
      if (pk() == '[') { size_t q = s.find(']', i); if (q == std::string::npos) bad("brackets"); if (s.find('[', i + 1) < q) throw Unjudged("nested brackets"); bool k = false, pre = false; for (auto& f : fam) { k = k || f == nm; pre = pre || nm.compare(0, f.size(), f) == 0; } if (!k && pre) throw Unjudged("family"); if (!k) bad("unknown function " + nm); std::string t = s.substr(b, q + 1 - b); i = q + 1; Val r; r.c = cst(0); r.f[t] = cst(1); return r; }
      if (isdigit((unsigned char)nm[0])) { for (char x : nm) if (!isdigit((unsigned char)x)) bad("operand " + nm); return lift(cst(mpz_class(nm))); }
      for (int k = 0; k < n; ++k) if (v[k] == nm) { ex::Rat r {{}, ex::constant(n, 1)}; ex::Deg d(n, 0); d[k] = 1; r.n.add(d, 1); return lift(r); } bad("unknown variable " + nm); }
    Val factor() { Val b = atom(); if (pk() == '^') { ++i; bool par = false, ng = false; if (pk() == '(') { par = true; ++i; } if (pk() == '-' || pk() == '+') { ng = pk() == '-'; if (!par) throw Unjudged("sign"); ++i; } size_t q = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (q == i) throw Unjudged("exponent"); long e = std::stol(s.substr(q, i - q)); if (par) { if (pk() != ')') throw Unjudged("exponent"); ++i; } if (pk() == '^') throw Unjudged("chain"); if (e > 20) throw Unjudged("exponent"); if (!b.f.empty()) bad("power of a function"); ex::Rat r = cst(1); for (long k = 0; k < e; ++k) r = ex::mul(r, b.c); if (ng) { if (r.n.zero()) throw Unjudged("division by zero"); r = ex::div(cst(1), r); } b.c = r; } return b; }
    static Val neg(Val a) { a.c.n = ex::neg(a.c.n); for (auto& x : a.f) x.second.n = ex::neg(x.second.n); return a; }
    Val mul(const Val& a, const Val& b) { if (!a.f.empty() && !b.f.empty()) bad("product of functions"); const Val& l = a.f.empty() ? b : a; const Val& r = a.f.empty() ? a : b; Val x; x.hasc = l.hasc; x.c = ex::mul(l.c, r.c); for (auto& m : l.f) x.f[m.first] = ex::mul(m.second, r.c); return x; }
    Val term() { Val r = factor(); for (;;) { char c = pk(); if (c == '*') { ++i; if (pk() == '-' || pk() == '+') throw Unjudged("sign"); r = mul(r, factor()); } else if (c == '/') { ++i; if (pk() == '-' || pk() == '+') throw Unjudged("sign"); Val d = factor(); if (!d.f.empty()) bad("division by a function"); if (d.c.n.zero()) throw Unjudged("division by zero"); d.c = ex::div(cst(1), d.c); r = mul(r, d); } else return r; } }
    static Val add(Val a, const Val& b) { a.c = a.hasc || b.hasc ? ex::add(a.c, b.c) : a.c; a.hasc = a.hasc || b.hasc; for (auto& m : b.f) { auto q = a.f.find(m.first); if (q == a.f.end()) a.f.insert(m); else q->second = ex::add(q->second, m.second); } return a; }
    Val expr() { bool ng = false; if (pk() == '-' || pk() == '+') { ng = s[i] == '-'; ++i; if (pk() == '-' || pk() == '+') throw Unjudged("signs"); } Val r = term(); if (ng) r = neg(r); for (;;) { char c = pk(); if (c == '+' || c == '-') { ++i; if (pk() == '-' || pk() == '+') throw Unjudged("signs"); Val t = term(); r = add(r, c == '-' ? neg(t) : t); } else return r; } }
    Map run() { Val r = expr(); if (pk()) bad("trailing text"); if (r.hasc) bad("term without function"); if (r.f.empty()) bad("no function"); return r.f; } };
  // Whether a linear combination is written in the documented format: a sum of NAME[...] or NAME[...]*product
  inline bool documented(const std::string& t) { std::string s = squeeze(t); size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    for (;;) { size_t b = i; while (i < s.size() && Parser::idc(s[i])) ++i; if (i == b || i >= s.size() || s[i] != '[') return false; i = s.find(']', i); if (i == std::string::npos) return false; ++i; if (i == s.size()) return true;
      if (s[i] == '*') { int d = 0; ++i; for (; i < s.size(); ++i) { if (s[i] == '(') ++d; if (s[i] == ')') --d; if (s[i] == '[') return false; if (!d && (s[i] == '+' || s[i] == '-') && s[i - 1] != '*' && s[i - 1] != '/' && s[i - 1] != '^') break; } if (i >= s.size()) return true; }
      if (s[i] != '+' && s[i] != '-') return false; ++i; } }
  inline std::string unbrace(const std::string& t) { std::string s = squeeze(t); if (!s.empty() && s[0] == '{') s.erase(0, 1); if (!s.empty() && s.back() == '}') s.pop_back(); return s; }
  struct Rules { std::map<std::string, Map> r; std::map<std::string, int> n; bool doc = true; };
  // one table of replacement rules
  inline void table(const std::string& text, const std::vector<std::string>& v, const std::vector<std::string>& fam, Rules& out, const std::function<bool(const std::string&)>& needed) {
    std::string s = unbrace(text); if (s.empty()) { out.doc = false; return; } std::vector<std::string> parts; { std::string c; int d = 0; for (char ch : s) { if (ch == '[' || ch == '(' || ch == '{') ++d; if (ch == ']' || ch == ')' || ch == '}') --d; if (ch == ',' && d <= 0) { parts.push_back(c); c.clear(); } else c += ch; } parts.push_back(c); }
    std::string unj; bool rej = false, skipped = false; std::string why;
    for (auto& p : parts) { size_t a = p.find("->"); if (a == std::string::npos) { if (skipped) { unj = "text behind a rule which is not needed"; continue; } throw Reject("no rule: " + p); } std::string l = p.substr(0, a), r = p.substr(a + 2); if (r.find("->") != std::string::npos) throw Reject("two arrows: " + p);
      try { Parser q(l, v, fam); Map m = q.run(); if (m.size() != 1 || m.begin()->first != l) throw Reject("left-hand side: " + l); } catch (const Unjudged& u) { unj = u.what(); continue; }
      skipped = !needed(l);
      if (!needed(l)) { if (r.empty() || r == "0") continue; try { Parser(r, v, fam).run(); } catch (const Reject& e) { unj = "malformed rule which is not needed"; } catch (const Unjudged& u) { unj = u.what(); } continue; }
      if (out.n[l]++) { rej = true; why = "two rules for " + l; continue; } if (r == "0") { out.r[l]; continue; }
      try { Parser q(r, v, fam); out.r[l] = q.run(); if (!documented(r)) out.doc = false; } catch (const Unjudged& u) { unj = u.what(); } }
    if (rej) throw Reject(why); if (!unj.empty()) throw Unjudged(unj); }
  inline Map apply(const Map& e, const Rules& r) { Map o; for (auto& m : e) { auto q = r.r.find(m.first); auto put = [&](const std::string& k, const ex::Rat& c) { auto z = o.find(k); if (z == o.end()) o[k] = c; else z->second = ex::add(z->second, c); }; if (q == r.r.end()) put(m.first, m.second); else for (auto& k : q->second) put(k.first, ex::mul(k.second, m.second)); } return o; }
}
