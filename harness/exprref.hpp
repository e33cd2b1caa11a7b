// Independent evaluator for arithmetic expressions over F_p (ordinary precedence, left-associative, right-associative power).
#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace ref {
  typedef unsigned long u;
  struct F { u p; u mul(u a, u b) const { return (u)((unsigned __int128)a * b % p); } u add(u a, u b) const { return (u)(((unsigned __int128)a + b) % p); } u neg(u a) const { return a ? p - a : 0; }
    u pow(u a, u e) const { u r = 1 % p; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; } u inv(u a) const { return pow(a, p - 2); } };
  struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
  // expr := [sign] term {(+|-) term}; term := factor {(*|/) factor}; factor := atom [^ exponent]; exponent := [sign] integer | ( [sign] integer ); atom := integer | variable | ( expr )
  struct Eval {
    const std::string& s; const std::map<std::string, u>& v; F f; size_t i = 0; bool div0 = false;
    Eval(const std::string& s_, const std::map<std::string, u>& v_, u p) : s(s_), v(v_), f{p} {}
    bool more() const { return i < s.size(); }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
    u num(bool modp) { if (!more() || !dig(s[i])) throw Bad("number"); u r = 0; u m = modp ? f.p : 0; while (more() && dig(s[i])) { r = modp ? f.add(f.mul(r, 10 % m), (s[i] - '0') % m) : r * 10 + (s[i] - '0'); ++i; } return r; }
    u atom() { if (!more()) throw Bad("end"); if (s[i] == '(') { ++i; u r = expr(); if (!more() || s[i] != ')') throw Bad("paren"); ++i; return r; }
      if (dig(s[i])) return num(true); if (al(s[i])) { std::string n; while (more() && (al(s[i]) || dig(s[i]))) n += s[i++]; auto it = v.find(n); if (it == v.end()) throw Bad("variable " + n); return it->second; } throw Bad("atom"); }
    u factor() { u b = atom(); if (more() && s[i] == '^') { ++i; bool par = false, neg = false; if (more() && s[i] == '(') { par = true; ++i; } if (more() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; } u e = num(false); if (par) { if (!more() || s[i] != ')') throw Bad("exponent"); ++i; } b = f.pow(b, e); if (neg) { if (!b) div0 = true; b = f.inv(b); } } return b; }
    u term() { u r = factor(); while (more() && (s[i] == '*' || s[i] == '/')) { char o = s[i++]; u b = factor(); if (o == '/') { if (!b) div0 = true; b = f.inv(b); } r = f.mul(r, b); } return r; }
    u expr() { bool neg = false; if (more() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; } u r = term(); if (neg) r = f.neg(r); while (more() && (s[i] == '+' || s[i] == '-')) { char o = s[i++]; u b = term(); r = f.add(r, o == '+' ? b : f.neg(b)); } return r; }
    u run() { u r = expr(); if (more()) throw Bad("trailing"); return r; }
  };
}
