// C02: every FFIntVec operation equals the FFInt operation lane by lane.
#include "vk.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/ReconstHelper.hpp"
#include <sstream>
using namespace firefly;
static uint64_t P;
template<int N> static void chk(const char* op, const FFIntVec<N>& got, const std::array<FFInt, N>& want, int o) {
  for (int i = 0; i < N; ++i) {
    if (got.vec[i].n != want[i].n) {
      vk::violation(op, std::string(op) + " N=" + std::to_string(N) + " lane " + std::to_string(i) + " offset " + std::to_string(o) + " p=" + std::to_string(P) + " got " + std::to_string(got.vec[i].n) + " scalar " + std::to_string(want[i].n));
      break;
    }
  }
  vk::eval(N);
}
template<int N> static void chkb(const char* op, bool got, bool want, int lane) {
  vk::eval();
  if (got != want) vk::violation(op, std::string(op) + " N=" + std::to_string(N) + " differing lane " + std::to_string(lane));
}
// every assignment of values of al to the lanes of both operands: all patterns of equal and different lanes
template<int N> static void patterns(const std::vector<uint64_t>& al) {
  typedef FFIntVec<N> V; typedef std::array<FFInt, N> A; size_t k = al.size(), tot = 1; for (int i = 0; i < N; ++i) tot *= k;
  for (size_t u = 0; u < tot; ++u) { if (!vk::mine()) continue; vk::cur("lane patterns N=" + std::to_string(N)); for (size_t v = 0; v < tot; ++v) {
    A a, b; std::vector<int> e(N); std::vector<long long> el(N); size_t x = u, y = v; for (int i = 0; i < N; ++i) { a[i] = FFInt(al[x % k]); b[i] = FFInt(al[y % k]); e[i] = (int)(y % k) - (a[i].n ? 1 : 0); el[i] = e[i]; x /= k; y /= k; }
    const V va(a), vb(b); FFInt s = b[N - 1];
    auto L = [&](const char* n, const V& got, auto f) { A w; for (int i = 0; i < N; ++i) w[i] = f(i); chk<N>(n, got, w, (int)v); };
    L("add", va + vb, [&](int i) { return a[i] + b[i]; }); L("sub", va - vb, [&](int i) { return a[i] - b[i]; }); L("mul", va * vb, [&](int i) { return a[i] * b[i]; }); L("div", va / vb, [&](int i) { return a[i] / b[i]; });
    { V c = va; c += vb; L("add_assign", c, [&](int i) { return a[i] + b[i]; }); } { V c = va; c -= vb; L("sub_assign", c, [&](int i) { return a[i] - b[i]; }); } { V c = va; c *= vb; L("mul_assign", c, [&](int i) { return a[i] * b[i]; }); } { V c = va; c /= vb; L("div_assign", c, [&](int i) { return a[i] / b[i]; }); }
    L("pow_v", va.pow(vb), [&](int i) { return a[i].pow(b[i]); }); L("pow_vv", pow(va, vb), [&](int i) { return a[i].pow(b[i]); }); L("pow_vec_int", va.pow(e), [&](int i) { return a[i].pow(e[i]); }); L("pow_vec_ll", va.pow(el), [&](int i) { return a[i].pow(el[i]); });
    chkb<N>("eq", va == vb, a == b, 0); chkb<N>("ne", va != vb, a != b, 0);
    if (v == u) { L("neg", -va, [&](int i) { return -a[i]; }); L("mul_vs", va * s, [&](int i) { return a[i] * s; }); L("add_vs", va + s, [&](int i) { return a[i] + s; }); L("sub_vs", va - s, [&](int i) { return a[i] - s; }); L("sub_sv", s - va, [&](int i) { return s - a[i]; }); L("div_sv", s / va, [&](int i) { return s / a[i]; }); L("div_vs", va / s, [&](int i) { return a[i] / s; }); L("pow_int", va.pow(3), [&](int i) { return a[i].pow(3); }); chkb<N>("not", !va, std::count(a.begin(), a.end(), FFInt(0)) > 0, 0); }
    vk::nontrivial(); } }
}
template<int N> static void run(const std::vector<std::pair<uint64_t, uint64_t>>& pr) {
  typedef FFIntVec<N> V; typedef std::array<FFInt, N> A;
  for (int stride : {0, 1, 7}) for (size_t o = 0; o < pr.size(); ++o) {
    A a, b; std::vector<int> e(N); std::vector<long long> el(N);
    for (int i = 0; i < N; ++i) { auto q = pr[(o + (size_t)i * stride) % pr.size()]; a[i] = FFInt(q.first); b[i] = FFInt(q.second); e[i] = (int)(q.second % 9) - (a[i].n ? 4 : 0); el[i] = e[i]; }
    FFInt s = b[0]; int ie = e[0]; int k = (int)(o % 11) - 5;
    const V va(a), vb(b);
    auto L = [&](const char* n, const V& got, std::function<FFInt(int)> f) { A w; for (int i = 0; i < N; ++i) w[i] = f(i); chk<N>(n, got, w, (int)o); };
    L("add", va + vb, [&](int i) { return a[i] + b[i]; });
    L("sub", va - vb, [&](int i) { return a[i] - b[i]; });
    L("mul", va * vb, [&](int i) { return a[i] * b[i]; });
    L("div", va / vb, [&](int i) { return a[i] / b[i]; });
    L("neg", -va, [&](int i) { return -a[i]; });
    L("plus", +va, [&](int i) { return a[i]; });
    L("add_vs", va + s, [&](int i) { return a[i] + s; });
    L("sub_vs", va - s, [&](int i) { return a[i] - s; });
    L("mul_vs", va * s, [&](int i) { return a[i] * s; });
    L("div_vs", va / s, [&](int i) { return a[i] / s; });
    L("add_sv", s + va, [&](int i) { return s + a[i]; });
    L("sub_sv", s - va, [&](int i) { return s - a[i]; });
    L("mul_sv", s * va, [&](int i) { return s * a[i]; });
    L("div_sv", s / va, [&](int i) { return s / a[i]; });
    L("add_vi", va + k, [&](int i) { return a[i] + k; });
    L("sub_vi", va - k, [&](int i) { return a[i] - k; });
    L("mul_vi", va * k, [&](int i) { return a[i] * k; });
    L("div_vi", va / k, [&](int i) { return a[i] / k; });
    L("add_iv", k + va, [&](int i) { return FFInt(k) + a[i]; });
    L("sub_iv", k - va, [&](int i) { return FFInt(k) - a[i]; });
    L("mul_iv", k * va, [&](int i) { return FFInt(k) * a[i]; });
    L("div_iv", k / va, [&](int i) { return FFInt(k) / a[i]; });
    { V c = va; V& r = (c += vb); L("add_assign", c, [&](int i) { return a[i] + b[i]; }); chkb<N>("assign_ref", &r == &c, true, 0); }
    { V c = va; c -= vb; L("sub_assign", c, [&](int i) { return a[i] - b[i]; }); }
    { V c = va; c *= vb; L("mul_assign", c, [&](int i) { return a[i] * b[i]; }); }
    { V c = va; c /= vb; L("div_assign", c, [&](int i) { return a[i] / b[i]; }); }
    { V c = va; c += s; L("add_assign_s", c, [&](int i) { return a[i] + s; }); }
    { V c = va; c -= s; L("sub_assign_s", c, [&](int i) { return a[i] - s; }); }
    { V c = va; c *= s; L("mul_assign_s", c, [&](int i) { return a[i] * s; }); }
    { V c = va; c /= s; L("div_assign_s", c, [&](int i) { return a[i] / s; }); }
    { V c = va; c += c; L("alias_add", c, [&](int i) { return a[i] + a[i]; }); }
    { V c = va; c -= c; L("alias_sub", c, [&](int i) { return a[i] - a[i]; }); }
    { V c = va; c *= c; L("alias_mul", c, [&](int i) { return a[i] * a[i]; }); }
    { V c = va; c /= c; L("alias_div", c, [&](int i) { return a[i] / a[i]; }); }
    L("pow_v", va.pow(vb), [&](int i) { return a[i].pow(b[i]); });
    L("pow_vv", pow(va, vb), [&](int i) { return a[i].pow(b[i]); });
    L("pow_s", va.pow(s), [&](int i) { return a[i].pow(s); });
    L("pow_int", va.pow(ie), [&](int i) { return a[i].pow(ie); });
    L("pow_u64", va.pow((uint64_t)(o % 13)), [&](int i) { return a[i].pow((uint64_t)(o % 13)); });
    L("pow_vec_int", va.pow(e), [&](int i) { return a[i].pow(e[i]); });
    L("pow_vec_ll", va.pow(el), [&](int i) { return a[i].pow(el[i]); });
    L("ctor_array", V(a), [&](int i) { return a[i]; });
    L("ctor_scalar", V(s), [&](int) { return s; });
    { V c(va); L("ctor_copy", c, [&](int i) { return a[i]; }); V d; d = c; L("assign", d, [&](int i) { return a[i]; }); V m; m = std::move(d); L("assign_move", m, [&](int i) { return a[i]; }); }
    L("ctor_default", V(), [&](int) { return FFInt(0); });
    { V c = va; for (int i = 0; i < N; ++i) { chkb<N>("index", c[i] == a[i] && va[i] == a[i], true, i); }
      int j = 0; bool ok = true; for (auto& x : c) { ok = ok && x == a[j++]; } chkb<N>("iterate", ok && j == N, true, 0);
      j = 0; ok = true; for (const auto& x : va) { ok = ok && x == a[j++]; } chkb<N>("iterate_const", ok && j == N, true, 0);
      for (int i = 0; i < N; ++i) { bool at = false; try { at = c.at(i) == a[i]; } catch (const std::exception&) {} chkb<N>("at", at, true, i); }
      bool thrown = false; try { c.at(N); } catch (const std::out_of_range&) { thrown = true; } chkb<N>("at_range", thrown, true, N);
      chkb<N>("size", c.size() == (size_t)N, true, 0); }
    bool anyzero = false; for (auto& x : a) anyzero = anyzero || x == 0;
    chkb<N>("not", !va, anyzero, 0);
    // operands untouched
    L("operand", va, [&](int i) { return a[i]; }); L("operand2", vb, [&](int i) { return b[i]; });
    if (stride == 1 && o % 16 == 0) {
      for (int i = 0; i < N; ++i) {
        A c = a; c[i] = a[i] + 1; V vc(c);
        chkb<N>("eq", vc == va, false, i); chkb<N>("ne", vc != va, true, i);
        V d = va; d[i] = c[i]; L("index_write", d, [&](int l) { return c[l]; });
        d = va; d[i] /= FFInt(3); L("index_div", d, [&](int l) { return l == i ? a[l] / 3 : a[l]; });
      }
      V vc(a); chkb<N>("eq_same", vc == va, true, 0); chkb<N>("ne_same", vc != va, false, 0);
      std::ostringstream ss, w; ss << va; w << "("; for (int i = 0; i < N; ++i) w << (i ? ", " : "") << a[i].n; w << ")";
      chkb<N>("stream", ss.str() == w.str(), true, 0);
      if (o == 0) { bool thrown = false; try { va.pow(std::vector<int>(N + 1, 1)); } catch (const std::out_of_range&) { thrown = true; } chkb<N>("pow_wrong_size", thrown, true, 0); }
    }
  }
  vk::nontrivial(pr.size());
  vk::sample("N=" + std::to_string(N) + " p=" + std::to_string(P) + ": " + std::to_string(pr.size()) + " operand pairs in every lane, all operators", 2);
}
int main(int argc, char** argv) {
  vk::init(argc, argv);
  std::vector<uint64_t> ps {5, primes()[0], primes()[1]};
  if (vk::thorough()) { ps.push_back(13); ps.push_back(101); ps.push_back(primes()[7]); }
  for (uint64_t p : ps) {
    P = p; FFInt::set_new_prime(p);
    std::vector<uint64_t> al;
    if (p < 200) for (uint64_t i = 0; i < std::min<uint64_t>(p, 31); ++i) al.push_back(i);
    else al = {0, 1, 2, 3, 7, p - 1, p - 2, p / 2, p / 2 + 1, (uint64_t)1 << 62, ((uint64_t)1 << 32) + 1, p - ((uint64_t)1 << 31)};
    std::vector<std::pair<uint64_t, uint64_t>> pr;
    for (auto a : al) for (auto b : al) pr.push_back({a, b});
    #define R(N) if (vk::mine()) { vk::cur("N=" #N " p=" + std::to_string(p)); run<N>(pr); }
    R(128) R(64) R(32) R(16) R(8) R(4) R(2)
  }
  for (uint64_t p : {(uint64_t)5, primes()[0]}) { P = p; FFInt::set_new_prime(p);
    patterns<2>(p == 5 ? std::vector<uint64_t> {0, 1, 2, 3, 4} : std::vector<uint64_t> {0, 1, 2, p - 1, (uint64_t)1 << 62}); patterns<4>(vk::thorough() ? std::vector<uint64_t> {0, 1, 2, p - 1, p - 2} : std::vector<uint64_t> {0, 2, p - 1}); patterns<8>({0, p - 2}); if (vk::thorough()) patterns<8>({1, p - 1}); }
  vk::finish();
}
