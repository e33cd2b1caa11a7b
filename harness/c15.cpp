// C15: dense solvers and Vandermonde systems - complete matrix spaces over small fields, scalar and bunched.
#include "vk.hpp"
#include "firefly/DenseSolver.hpp"
#include "firefly/FFIntVec.hpp"
#include "firefly/PolynomialFF.hpp"
#include "firefly/utils.hpp"
#include "firefly/ReconstHelper.hpp"
#include <algorithm>
#include <array>
#include <setjmp.h>
#include <stdexcept>
using namespace firefly;
typedef unsigned long u; typedef std::vector<std::vector<u>> Mat;
// std::exit of the code under test is turned into "reported"
static jmp_buf jb; static bool armed = false;
extern "C" void exit(int c) { if (armed) longjmp(jb, 1); fflush(nullptr); _exit(c); }
template<class F> static bool reported(F f) {
  // returns true when f refused the system (exit or exception)
  if (setjmp(jb)) { armed = false; return true; }
  armed = true;
  try { f(); } catch (const std::exception&) { armed = false; return true; }
  armed = false; return false;
}
static u P;
static u mulm(u a, u b) { return (u)((unsigned __int128)a * b % P); }
static u powm(u a, u e) { u r = 1 % P; while (e) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
static u inv(u a) { return powm(a, P - 2); }
// independent oracle: determinant and solution by fraction-free textbook elimination with first non-zero pivot
static u det(Mat a) { int n = a.size(); u d = 1; for (int i = 0; i < n; ++i) { int r = i; while (r < n && !a[r][i]) ++r; if (r == n) return 0; if (r != i) { std::swap(a[r], a[i]); d = (P - d) % P; } d = mulm(d, a[i][i]); u iv = inv(a[i][i]);
  for (int k = i + 1; k < n; ++k) { u c = mulm(a[k][i], iv); for (int j = i; j < n; ++j) a[k][j] = (a[k][j] + mulm(P - c, a[i][j])) % P; } } return d; }
static std::string str(const Mat& m) { std::string s; for (auto& r : m) { s += "["; for (auto x : r) s += std::to_string(x) + " "; s += "]"; } return s; }
static std::vector<u> mv(const Mat& m, const std::vector<u>& x) { std::vector<u> r; for (auto& row : m) { u s = 0; for (size_t j = 0; j < x.size(); ++j) s = (s + mulm(row[j], x[j])) % P; r.push_back(s); } return r; }
// ---- generic element access
template<class T> struct El;
template<> struct El<FFInt> { static const int N = 1; static FFInt make(const std::array<u, 1>& v) { return FFInt(v[0]); } static u get(const FFInt& a, int) { return a.n; } };
template<int M> struct El<FFIntVec<M>> { static const int N = M; static FFIntVec<M> make(const std::array<u, M>& v) { std::array<FFInt, M> a; for (int i = 0; i < M; ++i) a[i] = FFInt(v[i]); return FFIntVec<M>(a); } static u get(const FFIntVec<M>& a, int l) { return a.vec[l].n; } };
// All lanes: matrices ms[l], right-hand sides from solutions xs[l] (regular) or raw right-hand sides (singular).
template<class T> static void solve(const std::vector<Mat>& ms, const std::vector<std::vector<u>>& xs) {
  const int N = El<T>::N; int n = ms[0].size();
  std::vector<u> ds; bool anysing = false; std::string in = "p=" + std::to_string(P) + " lanes=" + std::to_string(N);
  std::vector<std::vector<u>> bs;
  for (int l = 0; l < N; ++l) { ds.push_back(det(ms[l])); anysing |= !ds[l]; bs.push_back(mv(ms[l], xs[l])); if (l < 2) in += " A=" + str(ms[l]) + " x=" + str({xs[l]}); }
  auto mk = [&](int r, int c) { std::array<u, El<T>::N> v; for (int l = 0; l < N; ++l) v[l] = ms[l][r][c]; return El<T>::make(v); };
  mat_ff<T> A(n, std::vector<T>(n)), G(n, std::vector<T>(n + 1)); std::vector<T> b(n);
  for (int r = 0; r < n; ++r) { for (int c = 0; c < n; ++c) A[r][c] = G[r][c] = mk(r, c); std::array<u, El<T>::N> v; for (int l = 0; l < N; ++l) v[l] = bs[l][r]; b[r] = G[r][n] = El<T>::make(v); }
  std::string tn = N == 1 ? "scalar_" : "bunch_";
  auto cmp = [&](const char* k, const std::vector<T>& x) { for (int l = 0; l < N; ++l) for (int i = 0; i < n; ++i) if (i >= (int)x.size() || El<T>::get(x[i], l) != xs[l][i]) { vk::violation(tn + k, std::string(k) + ": wrong solution in lane " + std::to_string(l) + ": " + in); return; } };
  vk::nontrivial();
  { // Gauss
    vk::eval(); static std::vector<T> x; x.clear();
    static mat_ff<T> g; g = G;
    bool rep = reported([&] { x = solve_gauss_system(g, n); });
    if (anysing) { if (!rep) vk::violation(tn + "gauss_singular_silent", "solve_gauss_system answered a singular system: " + in); }
    else if (rep) vk::violation(tn + "gauss_refused", "solve_gauss_system refused a regular system: " + in);
    else cmp("gauss", x);
  }
  { // Inverse
    vk::eval(); static mat_ff<T> a; a = A;
    bool rep = reported([&] { calc_inverse(a, n); });
    if (anysing) { if (!rep) vk::violation(tn + "inverse_singular_silent", "calc_inverse answered for a singular matrix: " + in); }
    else if (rep) vk::violation(tn + "inverse_refused", "calc_inverse refused a regular matrix: " + in);
    else for (int l = 0; l < N; ++l) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { u s = 0; for (int k = 0; k < n; ++k) s = (s + mulm(ms[l][i][k], El<T>::get(a[k][j], l))) % P; if (s != (i == j)) { vk::violation(tn + "inverse", "calc_inverse wrong: " + in); goto out; } }
    out:;
  }
  { // LU
    vk::eval(4); static mat_ff<T> lu; lu = A; static std::vector<int> p; p.clear(); static T d; static std::vector<T> x; static mat_ff<T> ia; ia.clear();
    if (reported([&] { calc_lu_decomposition(lu, p, n); })) {
      if (N == 1 && !anysing) vk::violation(tn + "lu_refused", "calc_lu_decomposition refused a regular matrix: " + in);
      if (N != 1) { vk::count("bunch_lu_refused"); bool same = true; for (int l = 1; l < N; ++l) same &= ms[l] == ms[0]; if (same && !anysing) vk::violation(tn + "lu_refused", "calc_lu_decomposition refused identical regular lanes: " + in); }
      return;
    }
    if (reported([&] { d = calc_determinant_lu(lu, p, n); })) vk::violation(tn + "det_refused", in);
    else for (int l = 0; l < N; ++l) if (El<T>::get(d, l) != ds[l]) { vk::violation(tn + "det", "determinant " + std::to_string(El<T>::get(d, l)) + " expected " + std::to_string(ds[l]) + " in lane " + std::to_string(l) + ": " + in); break; }
    bool rep = reported([&] { x = solve_lu(lu, p, b, n); });
    if (anysing ? !rep : rep) vk::violation(tn + (rep ? "solve_lu_refused" : "solve_lu_singular_silent"), "solve_lu: " + in); else if (!anysing) cmp("solve_lu", x);
    rep = reported([&] { calc_inverse_lu(lu, ia, p, n); });
    if (anysing ? !rep : rep) vk::violation(tn + (rep ? "inverse_lu_refused" : "inverse_lu_singular_silent"), "calc_inverse_lu: " + in);
    else if (!anysing) for (int l = 0; l < N; ++l) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { u s = 0; for (int k = 0; k < n; ++k) s = (s + mulm(ms[l][i][k], El<T>::get(ia[k][j], l))) % P; if (s != (i == j)) { vk::violation(tn + "inverse_lu", "calc_inverse_lu wrong: " + in); return; } }
  }
}
static Mat dec(u code, int n, const std::vector<u>& al) { Mat m(n, std::vector<u>(n)); for (auto& r : m) for (auto& x : r) { x = al[code % al.size()]; code /= al.size(); } return m; }
static std::vector<u> sol(u k, int n) { std::vector<u> x; for (int i = 0; i < n; ++i) { x.push_back((k + 1 + i * (k + 2)) % P); } return x; }
static void space(u prime, int n, const std::vector<u>& al, int rhs) {
  P = prime; FFInt::set_new_prime(prime);
  u tot = 1; for (int i = 0; i < n * n; ++i) tot *= al.size();
  vk::cur("scalar p=" + std::to_string(prime) + " n=" + std::to_string(n));
  for (u c = 0; c < tot; ++c) { if (!vk::mine()) continue; for (int k = 0; k < rhs; ++k) solve<FFInt>({dec(c, n, al)}, {sol(k, n)}); }
  vk::sample("all " + std::to_string(tot) + " " + std::to_string(n) + "x" + std::to_string(n) + " matrices with entries from an alphabet of " + std::to_string(al.size()) + " mod " + std::to_string(prime), 3);
}
template<int N> static void bunch(u prime, int n, const std::vector<u>& al, u stride) {
  P = prime; FFInt::set_new_prime(prime);
  u tot = 1; for (int i = 0; i < n * n; ++i) tot *= al.size();
  vk::cur("bunch" + std::to_string(N) + " p=" + std::to_string(prime) + " n=" + std::to_string(n));
  // every ordered pair (c0, c1) of matrices: lane 0 = c0, lane N-1 = c1, lanes between walk from c0 to c1
  for (u c0 = 0; c0 < tot; ++c0) for (u c1 = (c0 % stride); c1 < tot; c1 += stride) {
    if (!vk::mine()) continue;
    std::vector<Mat> ms; std::vector<std::vector<u>> xs;
    for (int l = 0; l < N; ++l) { ms.push_back(dec(l == N - 1 ? c1 : l == 0 ? c0 : (l & 1 ? c0 : c1), n, al)); xs.push_back(sol(l, n)); }
    solve<FFIntVec<N>>(ms, xs);
  }
}
static void vandermonde(u prime, const std::vector<std::vector<u>>& anchors, int maxdeg, int nv, size_t maxterms) {
  P = prime; FFInt::set_new_prime(prime);
  // nv variables: the first exponent belongs to z_1 and carries no information
  std::vector<std::vector<uint32_t>> degs; u tot = 1; for (int i = 0; i < nv - 1; ++i) tot *= maxdeg + 1;
  for (u c = 0; c < tot; ++c) { std::vector<uint32_t> d {uint32_t(7 - c % 8)}; u t = c; for (int i = 0; i < nv - 1; ++i) { d.push_back(t % (maxdeg + 1)); t /= maxdeg + 1; } degs.push_back(d); }
  for (u mask = 1; mask < (1UL << tot); ++mask) {
    if ((size_t)__builtin_popcountl(mask) > maxterms) continue;
    if (!vk::mine()) continue;
    for (auto& an : anchors) {
      std::vector<std::vector<uint32_t>> ds; for (u c = 0; c < tot; ++c) if (mask >> c & 1) ds.push_back(degs[c]);
      std::vector<u> vis; for (auto& d : ds) { u v = 1; for (int i = 0; i < nv - 1; ++i) v = mulm(v, powm(an[i], d[i + 1])); vis.push_back(v); }
      std::set<u> dist(vis.begin(), vis.end()); if (dist.size() != vis.size() || dist.count(0)) continue;
      for (int var = 0; var < 3; ++var) {
        std::vector<u> cs; for (size_t i = 0; i < ds.size(); ++i) cs.push_back(var == 0 ? (i + 1) % P : var == 1 ? (P - 1 - i * i % P) % P : (i % 2 ? 0 : (3 * i + 2) % P));
        std::vector<FFInt> nums, val; for (auto a : an) val.emplace_back(FFInt(a));
        for (size_t j = 0; j < ds.size(); ++j) { u s = 0; for (size_t i = 0; i < ds.size(); ++i) s = (s + mulm(cs[i], powm(vis[i], j + 1))) % P; nums.emplace_back(FFInt(s)); }
        auto ds2 = ds; if (var == 2) std::reverse(ds2.begin(), ds2.end());
        vk::eval(); vk::nontrivial();
        PolynomialFF r = solve_vandermonde_system(ds2, nums, val);
        auto co = r.coefs; bool ok = true; for (size_t i = 0; i < ds.size(); ++i) { auto it = co.find(ds[i]); if (it == co.end() ? cs[i] != 0 : it->second.n != cs[i]) ok = false; }
        if (co.size() > ds.size()) ok = false;
        if (!ok) vk::violation("vandermonde", "solve_vandermonde_system wrong: p=" + std::to_string(P) + " mask=" + std::to_string(mask) + " anchors " + str({an}) + " variant " + std::to_string(var));
      }
    }
  }
}
int main(int argc, char** argv) {
  vk::init(argc, argv);
  { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
  bool th = vk::thorough();
  u big = primes()[0];
  space(3, 1, {0, 1, 2}, 2); space(2147483647UL, 1, {0, 1, 5, 2147483646UL}, 2);
  space(5, 2, {0, 1, 2, 3, 4}, 3); space(7, 2, {0, 1, 2, 3, 4, 5, 6}, 3); space(big, 2, {0, 1, 2, big - 1, big / 2, big - 2}, 2);
  space(3, 3, {0, 1, 2}, 2);
  space(big, 3, {0, 1, big - 1}, 1);
  if (th) { space(5, 3, {0, 1, 2, 3, 4}, 1); space(3, 4, {0, 1}, 1); space(big, 4, {0, 1}, 1); space(3, 5, {0, 1}, 0); } else space(big, 4, {0, 1}, 1);
  bunch<2>(3, 2, {0, 1, 2}, 1); bunch<2>(big, 2, {0, 1, big - 1}, 1); bunch<4>(5, 2, {0, 1, 3}, 2); bunch<8>(big, 2, {0, 1, 2}, 3); bunch<2>(5, 3, {0, 1}, th ? 1 : 3);
  if (th) { bunch<2>(5, 2, {0, 1, 2, 3, 4}, 1); bunch<4>(big, 3, {0, 1}, 1); }
  bunch<16>(3, 2, {0, 1}, 1); bunch<32>(3, 2, {0, 1}, 1); bunch<64>(3, 2, {0, 1}, 1); bunch<128>(3, 2, {0, 1}, 1);
  std::vector<std::vector<u>> a1, a2;
  for (u i = 1; i < 11; ++i) { a1.push_back({i}); for (u j = 1; j < 11; ++j) a2.push_back({i, j}); }
  vandermonde(11, a1, 9, 2, 10); vandermonde(11, a2, 2, 3, 9);
  std::vector<std::vector<u>> b1 {{2}, {big - 2}, {big / 3}, {12345678901234567UL}}, b2 {{2, 3}, {big - 2, 5}, {big / 2, big / 3}, {1234567890123UL, 98765432109876UL}}, b3 {{2, 3, 5}, {big / 2, 7, big - 3}};
  vandermonde(big, b1, 9, 2, 10); vandermonde(big, b2, 2, 3, 9); vandermonde(big, b3, th ? 2 : 1, 4, th ? 5 : 8);
  vk::finish();
}
