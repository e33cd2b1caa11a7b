// C03: rationals, Chinese remaindering, rational reconstruction - complete small spaces against GMP / brute force.
#include "vk.hpp"
#include "firefly/utils.hpp"
#include "firefly/RationalNumber.hpp"
#include "firefly/ReconstHelper.hpp"
#include <sstream>
using namespace firefly;
typedef mpz_class Z; typedef mpq_class Q;
static Q q(const RationalNumber& r) { Q x(r.numerator, 1); x /= Q(r.denominator); return x; }
static std::string s(const RationalNumber& r) { return r.numerator.get_str() + "/" + r.denominator.get_str(); }
static void chk(const char* op, const RationalNumber& got, const Q& want, const std::string& in) {
  vk::eval();
  Q w = want; w.canonicalize();
  if (got.numerator != w.get_num() || got.denominator != w.get_den())
    vk::violation(op, std::string(op) + "(" + in + ") = " + s(got) + " expected " + w.get_str());
}
static void rationals() {
  int B = vk::thorough() ? 14 : 8;
  std::vector<std::pair<Z, Z>> fr;
  for (int n = -B; n <= B; ++n) for (int d = -B; d <= B; ++d) if (d) fr.push_back({n, d});
  Z big = 1; big <<= 200; for (Z n : {Z(big), Z(-big - 1)}) for (Z d : {Z(1), Z(big / 2), Z(-3), Z(big - 1)}) fr.push_back({n, d});
  for (auto& f : fr) {
    Q x(f.first, 1); x /= Q(f.second);
    std::string in = f.first.get_str() + "," + f.second.get_str();
    vk::cur("rational " + in);
    RationalNumber a(f.first, f.second);
    chk("ctor", a, x, in); chk("neg", -a, -x, in);
    // printed forms must denote the number
    for (std::string t : {a.string(), [&] { std::ostringstream o; o << a; return o.str(); }()}) {
      vk::eval(); std::string u; for (char c : t) if (c != '(' && c != ')') u += c;
      Q y; if (y.set_str(u, 10) != 0 || (y.canonicalize(), y != x)) vk::violation("print", "printed form of " + in + " is " + t);
    }
    if (!vk::mine()) continue;
    for (auto& g : fr) {
      Q y(g.first, 1); y /= Q(g.second); RationalNumber b(g.first, g.second);
      std::string in2 = in + ";" + g.first.get_str() + "," + g.second.get_str();
      RationalNumber a0 = a, b0 = b;
      chk("mul", a * b, x * y, in2);
      vk::eval(); if (!(s(a) == s(a0) && s(b) == s(b0))) { vk::violation("mul_operand_changed", "operator* changed an operand: " + in2 + " became " + s(a)); a = a0; b = b0; }
      { RationalNumber c = a; c += b; chk("add", c, x + y, in2); }
      { RationalNumber c = a; c -= b; chk("sub", c, x - y, in2); }
      { RationalNumber c = a; RationalNumber& r = (c *= b); chk("mul_assign", c, x * y, in2); vk::eval(); if (&r != &c) vk::violation("assign_ref", in2); }
      vk::eval(); if ((a == b) != (x == y)) vk::violation("eq", "operator==(" + in2 + ")");
      if (x != 0 || y != 0) {
        RationalNumber gg = gcd(a, b); Q gq = q(gg);
        vk::eval();
        Q u = x / gq, v = y / gq; u.canonicalize(); v.canonicalize();
        Z gz; mpz_gcd(gz.get_mpz_t(), u.get_num().get_mpz_t(), v.get_num().get_mpz_t());
        if (gq <= 0 || u.get_den() != 1 || v.get_den() != 1 || gz != 1 || gg.denominator <= 0) vk::violation("gcd", "gcd(" + in2 + ") = " + s(gg));
      }
      vk::eval(); if (s(b) != s(b0) || s(a) != s(a0)) vk::violation("operand_changed", in2);
      vk::nontrivial();
    }
    { RationalNumber c = a; c += c; chk("alias_add", c, x + x, in); }
    { RationalNumber c = a; c -= c; chk("alias_sub", c, 0, in); }
    { RationalNumber c = a; c *= c; chk("alias_mul", c, x * x, in); }
  }
  vk::sample("all pairs of " + std::to_string(fr.size()) + " fractions with |n|,|d| <= " + std::to_string(B), 1);
}
static void crt() {
  int B = vk::thorough() ? 48 : 28;
  std::vector<std::pair<Z, Z>> mods;
  for (int m1 = 2; m1 <= B; ++m1) for (int m2 = 2; m2 <= B; ++m2) if (gcd(Z(m1), Z(m2)) == 1) mods.push_back({m1, m2});
  for (auto& m : mods) {
    if (!vk::mine()) continue;
    vk::cur("crt " + m.first.get_str() + "," + m.second.get_str());
    for (Z a = 0; a < m.first; ++a) for (Z b = 0; b < m.second; ++b) {
      vk::eval(); vk::nontrivial(a != b);
      auto r = run_chinese_remainder({a, m.first}, {b, m.second});
      if (r.second != m.first * m.second || r.first < 0 || r.first >= r.second || r.first % m.first != a || r.first % m.second != b)
        vk::violation("crt", "CRT(" + a.get_str() + " mod " + m.first.get_str() + ", " + b.get_str() + " mod " + m.second.get_str() + ") = " + r.first.get_str() + " mod " + r.second.get_str());
    }
  }
  // growing products of table primes, as in the reconstruction loop
  Z M = 1; Z P;
  for (int k = 0; k < 12; ++k) {
    P = Z(std::to_string(primes()[k]));
    if (k) for (Z a : {Z(0), Z(1), Z(M - 1), Z(M / 2), Z(M / 3)}) for (Z b : {Z(0), Z(1), Z(P - 1), Z(P / 2), Z(P / 7)}) {
      vk::eval(); vk::nontrivial();
      auto r = run_chinese_remainder({a, M}, {b, P});
      if (r.second != M * P || r.first < 0 || r.first >= r.second || r.first % M != a || r.first % P != b) vk::violation("crt_large", "k=" + std::to_string(k) + " a=" + a.get_str() + " b=" + b.get_str());
    }
    M *= P;
  }
}
// the Wang-type reconstruction: unique n/d with 2n^2<=m, 2d^2<=m
static void check_wang(const Z& u, const Z& m, bool exists, const Z& n, const Z& d) {
  vk::eval();
  auto r = get_rational_coef(u, m);
  std::string in = "get_rational_coef(" + u.get_str() + " mod " + m.get_str() + ")";
  std::string got = r.first ? s(r.second) : "failure";
  if (exists && (!r.first || r.second.numerator != n || r.second.denominator != d)) vk::violation("wang_missed", in + " = " + got + ", expected " + n.get_str() + "/" + d.get_str());
  if (!exists && r.first) {
    Z t = (r.second.numerator - u * r.second.denominator) % m;
    vk::violation(t == 0 ? "wang_out_of_bound" : "wang_unsound", in + " = " + got + " although no fraction within the bound exists");
  }
}
static Z inv(const Z& a, const Z& m) { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static Z mod(const Z& a, const Z& m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static void wang() {
  int top = vk::thorough() ? 1200 : 420;
  for (int m = 3; m <= top; ++m) {
    if (!vk::mine()) continue;
    vk::cur("wang m=" + std::to_string(m));
    std::vector<std::pair<int, int>> best(m, {0, 0}); std::vector<char> have(m, 0);
    for (int d = 1; 2 * d * d <= m; ++d) { Z zd(d); if (gcd(zd, Z(m)) != 1) continue; Z di = inv(zd, m);
      if (m == 1) continue;
      for (int n = 0; 2 * n * n <= m; ++n) for (int sg = 0; sg < (n ? 2 : 1); ++sg) { int nn = sg ? -n : n; if (gcd(Z(n), zd) != 1) continue;
        int u = (int)Z(mod(nn * di, m)).get_si(); have[u] = 1; best[u] = {nn, d}; } }
    for (int u = 0; u < m; ++u) { check_wang(u, m, have[u], best[u].first, best[u].second); vk::nontrivial(have[u]); }
    vk::sample("all residues mod " + std::to_string(m), 1);
  }
  Z M = 1;
  for (int k = 0; k < 6; ++k) {
    M *= Z(std::to_string(primes()[k]));
    if (!vk::mine()) continue;
    Z h = M / 2, B; mpz_sqrt(B.get_mpz_t(), h.get_mpz_t());
    std::vector<Z> al {1, 2, 3, 5, 97, B / 2, B / 3 + 1, B - 2, B - 1, B, B + 1, B + 2, 2 * B};
    for (auto& n0 : al) for (auto& d : al) for (int sg = 0; sg < 2; ++sg) {
      Z n = sg ? Z(-n0) : n0; if (gcd(n, d) != 1 || gcd(d, M) != 1) continue;
      Z u = mod(n * inv(d, M), M);
      vk::cur("wang large k=" + std::to_string(k) + " " + n.get_str() + "/" + d.get_str());
      if (2 * n * n <= M && 2 * d * d <= M) { check_wang(u, M, true, n, d); vk::nontrivial(); }
      else { vk::eval(); auto r = get_rational_coef(u, M); if (r.first) { Z a = r.second.numerator, b = r.second.denominator;
        if (mod(a - u * b, M) != 0 || 2 * a * a > M || 2 * b * b > M || b <= 0 || gcd(a, b) != 1) vk::violation("wang_unsound_large", "u=" + u.get_str() + " M=" + M.get_str()); } }
    }
    check_wang(0, M, true, 0, 1);
  }
}
static void mqrr_one(const Z& u, const Z& m, const Z& T, const std::pair<Z, Z>* want) {
  vk::eval();
  auto r = get_rational_coef_mqrr(u, m);
  std::string in = "get_rational_coef_mqrr(" + u.get_str() + " mod " + m.get_str() + ") = " + (r.first ? s(r.second) : "failure");
  // several fractions may lie inside the bound; the rule picks the one with the largest quotient, i.e. (up to rounding of the quotient) the smallest |n|d
  if (want && (!r.first || ((r.second.numerator != want->first || r.second.denominator != want->second) && abs(r.second.numerator) * r.second.denominator * T > abs(want->first) * want->second * (T + 3)))) vk::violation("mqrr_missed", in + ", expected " + want->first.get_str() + "/" + want->second.get_str());
  if (r.first) { Z n = r.second.numerator, d = r.second.denominator;
    if (d <= 0 || gcd(n, d) != 1 || mod(n - u * d, m) != 0) vk::violation("mqrr_unsound", in);
    else if (abs(n) * d * T >= m && n != 0) vk::violation("mqrr_out_of_bound", in); }
}
static void mqrr() {
  std::vector<int> ms {5, 101, 9973, 20011, 65537, 131071, 300007, 1000003};
  if (vk::thorough()) for (int m : {65536, 999999, 4000037}) ms.push_back(m);
  for (int m0 : ms) {
    Z m(m0); Z T = 1024 * mpz_sizeinbase(m.get_mpz_t(), 2);
    std::map<int, std::pair<Z, Z>> want;
    if (m > T) want[0] = {0, 1};
    for (int d = 1; (T + 3) * d <= m; ++d) if (gcd(Z(d), m) == 1) for (int n = 1; (T + 3) * d * n <= m; ++n) if (gcd(Z(n), Z(d)) == 1) for (int sg = 0; sg < 2; ++sg) {
      Z nn = sg ? -n : n; int u = (int)mod(nn * inv(Z(d), m), m).get_si(); auto it = want.find(u); if (it == want.end() || abs(it->second.first) * it->second.second > abs(nn) * d) want[u] = {nn, Z(d)}; }
    vk::cur("mqrr m=" + std::to_string(m0));
    for (int u = vk::st().shard; u < m0; u += vk::st().nshards) { auto it = want.find(u); mqrr_one(u, m, T, it == want.end() ? nullptr : &it->second); vk::nontrivial(it != want.end()); }
  }
  Z M = 1;
  for (int k = 0; k < 6; ++k) {
    M *= Z(std::to_string(primes()[k])); Z T = 1024 * mpz_sizeinbase(M.get_mpz_t(), 2), L = M / (T + 3);
    if (!vk::mine()) continue;
    std::vector<Z> al {1, 2, 3, 7, 101}; for (int b = 8; b < 400; b += 11) { Z t = 1; t <<= b; if (t < M) { al.push_back(t); al.push_back(t - 1); al.push_back(t + 1); } } al.push_back(L); al.push_back(L - 1);
    for (auto& n0 : al) for (auto& d : al) for (int sg = 0; sg < 2; ++sg) {
      Z n = sg ? Z(-n0) : n0; if (gcd(n, d) != 1 || gcd(d, M) != 1) continue;
      vk::cur("mqrr large k=" + std::to_string(k) + " " + n.get_str() + "/" + d.get_str());
      std::pair<Z, Z> w {n, d}; bool in = n0 * d * (T + 3) <= M;
      mqrr_one(mod(n * inv(d, M), M), M, T, in ? &w : nullptr); vk::nontrivial(in);
    }
  }
}
int main(int argc, char** argv) {
  vk::init(argc, argv);
  rationals(); crt(); wang(); mqrr();
  vk::finish();
}
