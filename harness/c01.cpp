// C01: exhaustive comparison of FFInt with 128-bit integer arithmetic.
#include "vk.hpp"
#include "firefly/FFInt.hpp"
#include "firefly/ReconstHelper.hpp"
#include <climits>
#include <limits>
#include <sstream>
using namespace firefly;
typedef unsigned __int128 u128;
typedef __int128 i128;
static uint64_t P;
static uint64_t mulr(uint64_t a, uint64_t b) { return (uint64_t)((u128)a * b % P); }
static uint64_t powr(uint64_t a, uint64_t e) { uint64_t r = 1 % P; while (e) { if (e & 1) r = mulr(r, a); a = mulr(a, a); e >>= 1; } return r; }
static uint64_t invr(uint64_t a) { return powr(a, P - 2); }
static uint64_t canon(i128 v) { i128 r = v % (i128)P; if (r < 0) r += P; return (uint64_t)r; }
static std::string s128(i128 v) { bool neg = v < 0; u128 u = neg ? -(u128)v : (u128)v; std::string s; do { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u); return neg ? "-" + s : s; }
static void expect(const char* op, uint64_t got, uint64_t want, i128 a, i128 b) {
  vk::eval();
  if (got != want) {
    // class of the failing case: stable across runs, precise enough to tell findings apart
    vk::violation(std::string(op), std::string(op) + " p=" + std::to_string(P) + " a=" + s128(a) + " b=" + s128(b) + " got " + std::to_string(got) + " expected " + std::to_string(want));
  }
}
static void expectb(const char* op, bool got, bool want, uint64_t a, uint64_t b) { expect(op, got, want, a, b); }

static void pair_ops(uint64_t x, uint64_t y) {
  FFInt a(x), b(y);
  expect("ctor", a.n, x, x, 0);
  expect("add", (a + b).n, (uint64_t)(((u128)x + y) % P), x, y);
  expect("sub", (a - b).n, (uint64_t)(((u128)x + P - y) % P), x, y);
  expect("mul", (a * b).n, mulr(x, y), x, y);
  expect("div", (a / b).n, y ? mulr(x, invr(y)) : 0, x, y);
  { FFInt c = a; FFInt& r = (c += b); expect("add_assign", c.n, (uint64_t)(((u128)x + y) % P), x, y); expect("add_assign_ref", &r == &c, 1, x, y); }
  { FFInt c = a; c -= b; expect("sub_assign", c.n, (uint64_t)(((u128)x + P - y) % P), x, y); }
  { FFInt c = a; c *= b; expect("mul_assign", c.n, mulr(x, y), x, y); }
  { FFInt c = a; c /= b; expect("div_assign", c.n, y ? mulr(x, invr(y)) : 0, x, y); }
  expectb("eq", a == b, x == y, x, y); expectb("ne", a != b, x != y, x, y);
  expectb("lt", a < b, x < y, x, y); expectb("le", a <= b, x <= y, x, y);
  expectb("gt", a > b, x > y, x, y); expectb("ge", a >= b, x >= y, x, y);
  // the exponent of a field-element power is its residue
  expect(x == 0 ? "pow_elem_zero_base" : "pow_elem", a.pow(b).n, powr(x, y), x, y);
  expect(x == 0 ? "pow_elem_zero_base" : "pow_elem_free", pow(a, b).n, powr(x, y), x, y);
  expect("operand_unchanged", a.n == x && b.n == y, 1, x, y);
  if (x != y && x && y) vk::nontrivial();
}
static void single_ops(uint64_t x) {
  FFInt a(x);
  expect("neg", (-a).n, x ? P - x : 0, x, 0);
  expect("plus", (+a).n, x, x, 0);
  expectb("not", !a, x == 0, x, 0);
  FFInt c(a); expect("copy", c.n, x, x, 0);
  c = FFInt(0); c = a; expect("assign", c.n, x, x, 0);
  { FFInt d(a); d += d; expect("alias_add", d.n, (uint64_t)(2 * (u128)x % P), x, x); }
  { FFInt d(a); d -= d; expect("alias_sub", d.n, 0, x, x); }
  { FFInt d(a); d *= d; expect("alias_mul", d.n, mulr(x, x), x, x); }
  { FFInt d(a); d /= d; expect("alias_div", d.n, x ? 1 : 0, x, x); }
  uint64_t up = (uint64_t)(((u128)x + 1) % P), down = x ? x - 1 : P - 1;
  { FFInt d(a); FFInt r = ++d; expect("preinc", r.n, up, x, 0); expect("preinc_inplace", d.n, up, x, 0); }
  { FFInt d(a); FFInt r = d++; expect("postinc_inplace", d.n, up, x, 0); expect("postinc_value", r.n, x, x, 0); }
  { FFInt d(a); FFInt r = --d; expect("predec", r.n, down, x, 0); expect("predec_inplace", d.n, down, x, 0); }
  { FFInt d(a); FFInt r = d--; expect("postdec_inplace", d.n, down, x, 0); expect("postdec_value", r.n, x, x, 0); }
  std::ostringstream ss; ss << a; expect("stream", ss.str() == std::to_string(x), 1, x, 0);
  expect("mpz_residue", FFInt(mpz_class(std::to_string(x))).n, x, x, 0);
  expect("str_residue", FFInt(std::to_string(x), {}).n, x, x, 0);
}
template<class T> static void int_pow(uint64_t x, T e, const char* name) {
  FFInt a(x);
  bool neg = e < 0;
  
  uint64_t m = neg ? (uint64_t)0 - (uint64_t)e : (uint64_t)e;
  uint64_t want = powr(neg ? (x ? invr(x) : 0) : x, m);
  expect(name, a.pow(e).n, want, x, (i128)e);
  expect(name, pow(a, e).n, want, x, (i128)e);
}
template<class T> static std::vector<T> typed_values() {
  std::vector<i128> v;
  for (int i = -70; i <= 70; ++i) v.push_back(i);
  for (i128 m : {(i128)P, (i128)2 * P, (i128)P / 2, (i128)3 * P}) for (int d = -2; d <= 2; ++d) { v.push_back(m + d); v.push_back(-m + d); }
  for (int b : {7, 8, 15, 16, 31, 32, 62, 63, 64}) for (int d = -2; d <= 2; ++d) { v.push_back(((i128)1 << b) + d); v.push_back(-((i128)1 << b) + d); }
  std::vector<T> r;
  for (i128 x : v) if (x >= (i128)std::numeric_limits<T>::min() && x <= (i128)std::numeric_limits<T>::max()) r.push_back((T)x);
  return r;
}
template<class T> static void int_ctor(const char* name) {
  for (T v : typed_values<T>()) {
    expect((std::string("ctor_int_") + name + (v < 0 ? "_neg" : "")).c_str(), FFInt(v).n, canon((i128)v), (i128)v, 0);
    FFInt a(5); expect((std::string("mixed_") + name).c_str(), (a + v).n, canon((i128)(5 % P) + (i128)v), 5, (i128)v);
    expect((std::string("mixed_left_") + name).c_str(), (FFInt(v) - a).n, canon((i128)v - (i128)(5 % P)), (i128)v, 5);
    FFInt z = 7; z = v; expect((std::string("assign_int_") + name).c_str(), z.n, canon((i128)v), (i128)v, 0);
  }
}
enum E {E0 = 0, E1 = 1, E70 = 70};
static void conversions() {
  int_ctor<int>("i32"); int_ctor<long long>("i64"); int_ctor<unsigned>("u32"); int_ctor<uint64_t>("u64");
  int_ctor<short>("i16"); int_ctor<unsigned short>("u16"); int_ctor<signed char>("i8"); int_ctor<unsigned char>("u8");
  int_ctor<long>("long");
  expect("ctor_enum", FFInt(E70).n, 70 % P, 70, 0);
  expect("ctor_default", FFInt().n, 0, 0, 0);
  // big integers, decimal strings, variable replacements
  mpz_class p(std::to_string(P));
  std::vector<mpz_class> big;
  for (int e = 0; e <= 4; ++e) { mpz_class pe = 1; for (int i = 0; i < e; ++i) pe *= p; for (int d = -3; d <= 3; ++d) big.push_back(pe + d); }
  for (int d = 1; d <= 60; ++d) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, d); big.push_back(t); big.push_back(t - 1); big.push_back(t + 1); }
  for (int b = 30; b <= 200; ++b) { mpz_class t = 1; t <<= b; big.push_back(t); big.push_back(t - 1); }
  for (auto& v : big) {
    for (int sg = 0; sg < 2; ++sg) {
      mpz_class w = sg ? mpz_class(-v) : v, r; mpz_fdiv_r(r.get_mpz_t(), w.get_mpz_t(), p.get_mpz_t());
      uint64_t want = std::stoull(r.get_str());
      vk::eval();
      FFInt f(w);
      if (f.n != want) vk::violation(sg ? "mpz_neg" : "mpz", "FFInt(mpz " + w.get_str() + ") p=" + std::to_string(P) + " got " + std::to_string(f.n) + " expected " + std::to_string(want));
      if (!sg && v >= 0) for (const char* pad : {"", "0", "0000000000000000000000"}) {
        vk::eval();
        FFInt g(std::string(pad) + v.get_str(), {});
        if (g.n != want) vk::violation("str", "FFInt(\"" + std::string(pad) + v.get_str() + "\") p=" + std::to_string(P) + " got " + std::to_string(g.n) + " expected " + std::to_string(want));
      }
      vk::nontrivial();
    }
  }
  for (uint64_t v : {(uint64_t)0, (uint64_t)1, P - 1, P, P + 1, P + P - 1, P + P, ~(uint64_t)0})
    expect("str_replacement", FFInt("x", {{"y", 3}, {"x", v}, {"z", 4}}).n, canon((i128)v), v, 0);
  for (const char* bad : {"", "-1", "x", "1x", "12 3", "99999999999999999999999999x", "1.5"}) {
    bool thrown = false; try { FFInt f(bad, {{"y", 1}}); } catch (const std::exception&) { thrown = true; }
    expect((std::string("reject_") + bad).c_str(), thrown, 1, 0, 0);
  }
}
static bool is_prime(uint64_t n) {
  uint64_t save = P; P = n; bool ok = n % 2 || n == 2;
  uint64_t d = n - 1; int s = 0; while (d % 2 == 0) { d /= 2; ++s; }
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    if (a % n == 0) continue;
    uint64_t x = powr(a, d); if (x == 1 || x == n - 1) continue;
    bool c = true; for (int i = 1; i < s && c; ++i) { x = mulr(x, x); if (x == n - 1) c = false; }
    if (c) ok = false;
  }
  P = save; return ok;
}
static void set(uint64_t p) { P = p; FFInt::set_new_prime(p); expect("set_new_prime", FFInt::p, p, p, 0); }
int main(int argc, char** argv) {
  vk::init(argc, argv);
  // 1. small primes, completely
  std::vector<uint64_t> small {3, 5, 7, 11, 13, 17, 31, 61};
  if (vk::thorough()) for (uint64_t p : {2, 101, 127, 251, 257, 509}) small.push_back(p);
  for (uint64_t p : small) {
    if (!vk::mine()) continue;
    vk::cur("small prime " + std::to_string(p)); set(p);
    for (uint64_t a = 0; a < p; ++a) {
      single_ops(a);
      for (uint64_t b = 0; b < p; ++b) pair_ops(a, b);
      for (int e = -70; e <= 70; ++e) { int_pow<int>(a, e, "pow_int"); int_pow<long long>(a, e, "pow_i64"); if (e >= 0) { int_pow<unsigned>(a, e, "pow_u32"); int_pow<uint64_t>(a, e, "pow_u64"); } }
    }
    conversions();
    vk::sample("all " + std::to_string(p * p) + " operand pairs, all operators, p=" + std::to_string(p), 1);
  }
  // 2. the prime table
  const auto tab = primes();
  std::set<uint64_t> seen;
  for (size_t i = 0; i < tab.size(); ++i) {
    vk::eval();
    if (!is_prime(tab[i])) vk::violation("table_not_prime", "primes()[" + std::to_string(i) + "]=" + std::to_string(tab[i]) + " is not prime");
    if (tab[i] >> 63) vk::violation("table_too_big", "primes()[" + std::to_string(i) + "] does not fit 63 bits");
    if (!seen.insert(tab[i]).second) vk::violation("table_duplicate", "primes()[" + std::to_string(i) + "] is repeated");
  }
  if (tab.size() < 2) vk::violation("table_small", "prime table has fewer than two primes");
  // 3. boundary alphabet for the table primes and some other large primes
  std::vector<uint64_t> large;
  size_t nt = vk::thorough() ? tab.size() : std::min<size_t>(tab.size(), 24);
  for (size_t i = 0; i < nt; ++i) large.push_back(tab[i]);
  large.push_back(tab.back());
  for (uint64_t p : {2147483647ull, 4294967291ull, 4294967311ull, 2305843009213693951ull, 4611686018427387847ull, 6917529027641081903ull}) if (is_prime(p)) large.push_back(p);
  for (uint64_t p : large) {
    std::set<uint64_t> alpha;
    for (uint64_t i = 0; i < 6; ++i) { alpha.insert(i); alpha.insert(p - 1 - i); alpha.insert(p / 2 + i); alpha.insert(p / 2 - i); alpha.insert(p / 3 + i); }
    for (int b = 4; b < 63; b += vk::thorough() ? 1 : 3) for (int d = -1; d <= 1; ++d) { uint64_t v = ((uint64_t)1 << b) + d; if (v < p) { alpha.insert(v); alpha.insert(p - v); } }
    P = p;
    for (uint64_t i : {2, 3, 5, 7, 10, 97}) { alpha.insert(invr(i)); alpha.insert(p - invr(i)); }
    std::vector<uint64_t> av(alpha.begin(), alpha.end());
    vk::cur("large prime " + std::to_string(p));
    set(p);
    bool conv = vk::mine();
    if (conv) { conversions(); for (uint64_t a : av) if (a < p) { single_ops(a);
      for (long long e : {-5ll, -3ll, -2ll, -1ll, 0ll, 1ll, 2ll, 3ll, 4ll, 5ll, 64ll, 65537ll, -65537ll, (long long)INT_MAX, -(long long)INT_MAX, LLONG_MAX, -LLONG_MAX}) { int_pow<long long>(a, e, "pow_i64"); if (e >= INT_MIN && e <= INT_MAX) int_pow<int>(a, (int)e, "pow_int"); if (e >= 0) int_pow<uint64_t>(a, e, "pow_u64"); if (e >= 0 && e <= (long long)UINT_MAX) int_pow<unsigned>(a, e, "pow_u32"); }
      int_pow<int>(a, INT_MIN, "pow_int_min"); int_pow<long long>(a, LLONG_MIN, "pow_i64_min"); int_pow<unsigned>(a, UINT_MAX, "pow_u32"); int_pow<uint64_t>(a, ULLONG_MAX, "pow_u64_huge"); } }
    for (uint64_t a : av) { if (a >= p) continue; if (!vk::mine()) continue; for (uint64_t b : av) if (b < p) pair_ops(a, b); }
    vk::sample("boundary alphabet of " + std::to_string(av.size()) + " residues, all pairs, p=" + std::to_string(p), 2);
  }
  vk::finish();
}
