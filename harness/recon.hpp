// Runs the real Reconstructor on a black box given by exact rational functions, under the deterministic scheduler of mc/.
#pragma once
#include "vk.hpp"
#include "exact.hpp"
#include "../mc/mc.hpp"
#include "firefly/Reconstructor.hpp"
#include <memory>
#include <ftw.h>
namespace rec {
  inline int rm1(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
  inline void remove_dir(const char* relative) { if (relative[0] != '/' && relative[0] != '.') nftw(relative, rm1, 16, FTW_DEPTH | FTW_PHYS); }
  using namespace firefly;
  struct Opt { int threads = 1, bunch = 1, verbosity = 0; bool shift = false, factor = false, safe = false, save = false, resume = false; std::vector<std::vector<uint64_t>> anchors, shifts; int primes = 300; bool early = false; bool stop_factors = false;
    std::string text() const { std::string r = "threads " + std::to_string(threads) + " bunch " + std::to_string(bunch); if (shift) r += " shift-scan"; if (factor) r += " factor-scan"; if (safe) r += " safe"; if (save) r += " save"; if (verbosity) r += " verbosity " + std::to_string(verbosity); if (!anchors.empty()) r += " anchors"; if (!shifts.empty()) r += " shifts"; if (early) r += " early"; if (primes != 300) r += " primes " + std::to_string(primes); return r; } };
  inline std::vector<std::string> vars(int n) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(std::string(1, "xyzwuvst"[i])); return v; }
  class BB : public BlackBoxBase<BB> {
  public:
    std::vector<ex::Rat> fs; int n; uint64_t calls = 0; uint32_t maxdeg = 0;
    struct M { FFInt c; std::vector<uint32_t> d; };
    std::vector<std::vector<M>> num, den;
    BB(int n_, const std::vector<std::string>& f) : n(n_) { auto v = vars(n); for (auto& s : f) fs.push_back(ex::parse(s, v)); for (auto& f : fs) for (auto* p : {&f.n, &f.d}) for (auto& m : p->c) for (auto d : m.first) maxdeg = std::max(maxdeg, d); prime_changed(); }
    static std::vector<M> conv(const ex::Poly& p) { std::vector<M> r; for (auto& m : p.c) r.push_back({FFInt(m.second), m.first}); return r; }
    void prime_changed() { if (!FFInt::p) return; num.clear(); den.clear(); for (auto& f : fs) { num.push_back(conv(f.n)); den.push_back(conv(f.d)); } }
    template<typename T> T ev(const std::vector<M>& p, const std::vector<std::vector<T>>& pw) const { T r(FFInt(0)); for (auto& m : p) { T t(m.c); for (int i = 0; i < n; ++i) if (m.d[i]) t *= pw[i][m.d[i]]; r += t; } return r; }
    template<typename T> std::vector<T> operator()(const std::vector<T>& values) {
      std::vector<std::vector<T>> pw(n); for (int i = 0; i < n; ++i) { pw[i].push_back(T(FFInt(1))); for (uint32_t k = 1; k <= maxdeg; ++k) pw[i].push_back(pw[i].back() * values[i]); }
      std::vector<T> r; for (size_t f = 0; f < fs.size(); ++f) { if (ex::is_const(fs[f].d)) { T q = ev<T>(num[f], pw); T d = ev<T>(den[f], pw); r.push_back(q / d); } else r.push_back(ev<T>(num[f], pw) / ev<T>(den[f], pw)); } return r; }
  };
  // Compares one result with the exact function; returns an empty text if it is right.
  inline std::string compare(const RationalFunction& rf, const ex::Rat& want, int n, bool lowest) {
    auto v = vars(n); std::string s = rf.to_string(v); ex::Rat got; try { got = ex::parse(s, v); } catch (const std::exception& e) { return std::string("unreadable result: ") + e.what(); }
    if (got.d.zero()) return "the denominator is zero: " + s.substr(0, 300);
    if (!ex::equal(got, want)) return "wrong function: " + s.substr(0, 400);
    if (lowest && rf.get_factors().empty()) { ex::Rat q; size_t cut = s.find(")/("); (void)cut; q = got; if (!ex::coprime(q.n, q.d)) return "not in lowest terms: " + s.substr(0, 300); 
      if (!want.n.zero()) { bool one = false; for (auto* p : {&rf.numerator, &rf.denominator}) for (auto& c : p->coefs) if (c.coef.numerator == 1 && c.coef.denominator == 1) one = true; if (!one) return "not normalised: " + s.substr(0, 300);  } }
    return ""; }
  template<typename B> void options2(Reconstructor<B>& r, const Opt& o) {
    if (o.shift) r.enable_shift_scan(); if (o.factor) r.enable_factor_scan(); if (o.safe) r.set_safe_interpolation(); if (!o.anchors.empty()) r.set_anchor_points(o.anchors); if (!o.shifts.empty()) r.set_shifts(o.shifts); if (o.save) r.set_tags(); if (o.stop_factors) r.stop_after_factor_scan(); if (o.resume) r.resume_from_saved_state(); }
  inline void options(Reconstructor<BB>& r, const Opt& o) { options2(r, o); }
  inline void check_all(const std::vector<RationalFunction>& res, const BB& bb, bool lowest) {
    if (res.size() != bb.fs.size()) mc::fail("count", "the result has " + std::to_string(res.size()) + " instead of " + std::to_string(bb.fs.size()) + " functions");
    for (size_t i = 0; i < res.size(); ++i) { std::string e = compare(res[i], bb.fs[i], bb.n, lowest); if (!e.empty()) mc::fail("result", "function " + std::to_string(i + 1) + ": " + e); } }
  inline void one(const std::string& name, const std::function<void()>& body, int cpu = 60, const char* keyprefix = "") {
    vk::cur(name); mc::Config c; c.preemptions = 0; c.races = false; c.cpu_seconds = cpu; c.max_steps = 20000000; mc::Result r = mc::replay(c, body, ""); vk::eval(); vk::count("scheduling_points", r.points); if (r.executions) vk::nontrivial(); if (r.counters[0]) vk::count("factor_degrees_found", r.counters[0]);
    for (auto& v : r.violations) vk::violation(std::string(keyprefix) + v.key + ": " + name, v.msg + " (" + name + ")", name, v.trace.substr(0, 600)); }
  inline void run(int n, const std::vector<std::string>& fs, const Opt& o) {
    std::string name = std::to_string(n) + " variables, " + o.text() + ": "; for (auto& f : fs) name += f + "; ";
    if (name.size() > 900) name = name.substr(0, 900);
    one(name, [&] { BB bb(n, fs); Reconstructor<BB> r(n, o.threads, o.bunch, bb, o.verbosity); options(r, o); r.reconstruct(o.primes); check_all(r.get_result(), bb, !o.factor); });
  }
  inline void quiet() { if (!getenv("VK_DEBUG") && !freopen("/dev/null", "w", stderr)) abort(); const char* d = getenv("VK_DIR"); if (d && chdir(d) != 0) abort(); unlink("firefly.log"); if (symlink("/dev/null", "firefly.log") != 0) {} }
}
