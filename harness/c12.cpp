// C12: a reconstruction that is stopped before any black-box evaluation, then resumed (and stopped again).
#include "crash.hpp"
using namespace crash;
typedef std::vector<std::string> V;
static bool debug;
struct Step { int eval; int threads, bunch; };
static std::string htext(const std::vector<Step>& h) { std::string s; for (auto& x : h) s += " stopped before evaluation " + std::to_string(x.eval + 1) + (x.threads ? " with " + std::to_string(x.threads) + " threads and bunch size " + std::to_string(x.bunch) : ""); return s; }
static std::function<void(Opt&)> with(int th, int bu) { return [=](Opt& o) { if (th) o.threads = th; if (bu) o.bunch = bu; }; }
static void viol(const Case& c, const std::string& hist, const std::string& key, const std::string& msg) { vk::violation(key + ": " + c.text() + (hist.empty() ? "" : "resumed"), msg + " (" + c.text() + hist + ")", c.text() + hist); }
static Out rerun(const Case& c, const std::vector<Step>& h) { rec::remove_dir("ff_save"); Out o; for (size_t i = 0; i < h.size(); ++i) { Plan p; p.eval = h[i].eval; o = session(c, i > 0, p, with(h[i].threads, h[i].bunch)); } return o; }
// The last session of a history; refused only if the scan for a shift was interrupted
static Out last(const Case& c, const std::vector<Step>& h, int th, int bu, bool mayrefuse) {
  Out o = session(c, true, Plan(), with(th, bu)); vk::eval(); vk::count("scheduling_points", o.points); std::string hist = htext(h) + (th ? ", resumed with " + std::to_string(th) + " threads and bunch size " + std::to_string(bu) : "");
  if (o.kind == BAD) viol(c, hist, o.key, o.msg); else if (o.kind == REFUSED) { if (mayrefuse) vk::count("refused_unfinished_scan"); else viol(c, hist, "refused", "the reconstruction cannot be resumed: " + o.what); } else { vk::nontrivial(); vk::count("resumed_correctly"); } return o; }
struct W { std::string name; int n; V f; };
static std::vector<W> wrong(const Case& c) { std::vector<W> r; for (size_t i = 0; i < c.f.size(); ++i) { W w {"another function " + std::to_string(i + 1), c.n, c.f}; w.f[i] = "1+" + w.f[i]; r.push_back(w); } { W w {"one function more", c.n, c.f}; w.f.push_back("1"); r.push_back(w); } if (c.f.size() > 1) { W w {"one function less", c.n, c.f}; w.f.pop_back(); r.push_back(w); W x {"exchanged functions", c.n, c.f}; std::swap(x.f[0], x.f.back()); r.push_back(x); } r.push_back({"one variable more", c.n + 1, c.f}); bool lastvar = false; for (auto& f : c.f) if (f.find("xyz"[c.n - 1]) != std::string::npos) lastvar = true; if (c.n > 1 && !lastvar) r.push_back({"one variable less", c.n - 1, c.f}); return r; }
int main(int argc, char** argv) {
  vk::init(argc, argv); rec::quiet(); bool T = vk::thorough(); debug = getenv("VK_DEBUG");
  struct F { int n; V f; }; const std::string big = "123456789123456789123456789/7*x+5", huge = "1234567891234567891234567891234567890123456789/7*x+5/98765432109876543211";
  std::vector<F> fs = {{1, {"(1+x)/(2-x)"}}, {1, {big}}, {1, {"0"}}, {1, {"x", "0", huge}}, {1, {"5", "1/x"}}, {2, {"x*y"}}, {2, {"(x+y)/(x-y)", "7", "1/(1+x*y)"}}, {2, {"123456789123456789123*x+y", "0", "x^2*y/(1+x)", huge}}, {3, {"x*y+z", "(x-98765432109876543210987654321)/(y+z)"}}, {3, {"x", "y*z^2", "0"}}};
  for (auto& f : fs) for (int th : {1, 2, 3}) for (int bu : {1, 2, 4}) for (auto opt : {"", "t", "s", "st", "S", "St", "f", "ft", "sf", "sft"}) {
    int w = (th > 1) + (bu > 1) + (std::string(opt).find_first_of("sSf") != std::string::npos); if (!T && (w > 1 || th > 2 || bu > 2)) continue; if (T && w > 2) continue;
    if (!vk::mine()) continue;
    Case c; c.n = f.n; c.f = f.f; c.o.threads = th; c.o.bunch = bu; bool scan = false, factor = false, safe = false; for (const char* e = opt; *e; ++e) { if (*e == 's') c.o.shift = scan = true; if (*e == 'f') c.o.factor = factor = true; if (*e == 'S') c.o.safe = safe = true; if (*e == 't') c.clock = 2000; }
    vk::cur(c.text()); vk::sample(c.text()); vk::count("configurations");
    rec::remove_dir("ff_save"); Out full = session(c, false, Plan()); vk::eval(); if (full.kind != FINISHED) { viol(c, "", full.key, full.msg + full.what); continue; } int E = full.nevals;
    // a finished reconstruction needs nothing but the validation
    Out again = last(c, {{E, 0, 0}}, 0, 0, false); if (again.kind == FINISHED && again.nevals > 1) viol(c, "", "repeated", "resuming a finished reconstruction needs " + std::to_string(again.nevals) + " evaluations");
    if (debug) { fprintf(stderr, "%s E %d primes %d:", c.text().c_str(), E, full.nprimes); for (int i = 0; i <= full.nprimes; ++i) fprintf(stderr, " %d", full.perprime[i]); fprintf(stderr, "\n"); }
    for (int k = 0; k < E; ++k) {
      Out a = rerun(c, {{k, 0, 0}}); if (a.kind != KILLED) { if (a.kind == BAD) viol(c, "", a.key, a.msg); continue; } vk::count("stops");
      bool mayrefuse = scan && !factor; { struct stat b; mayrefuse = scan && stat("ff_save/scan", &b) != 0; }
      // the files of this stop are reused by the sessions with other black boxes, which have to be refused before they change anything
      bool stored = false; { struct stat b; stored = stat("ff_save/validation.gz", &b) == 0 && b.st_size > 0; }
      if (stored && (k == E / 2 || k == E - 1 || T)) for (auto& wbb : wrong(c)) { Out o = session(c, true, Plan(), [&](Opt& x) { x.n_override = wbb.n; x.f_override = wbb.f; }); vk::eval(); vk::count("other_black_boxes"); if (o.kind == REFUSED) { vk::nontrivial(); vk::count("refused_other_black_box"); } else if (o.kind == BAD && o.key != "result" && o.key != "count") viol(c, "", "other-" + o.key, "black box " + wbb.name + ": " + o.msg); else viol(c, "", "accepted", "resuming with a black box with " + wbb.name + " is not refused"); }
      Out r = last(c, {{k, 0, 0}}, 0, 0, mayrefuse);
      // completed prime fields are not repeated
      if (r.kind == FINISHED && !factor && bu == 1 && a.nprimes > 1) { int rest = 0; for (int q = a.nprimes; q < 64; ++q) rest += full.perprime[q]; vk::count("bounded_resumptions"); if (r.nevals > rest + 2 + 2 * th) viol(c, "", "repeated-field", "the resumed run needs " + std::to_string(r.nevals) + " evaluations, the uninterrupted one " + std::to_string(rest) + " from the same prime field on"); }
      if (bu == 1 && th < 3 && r.kind == FINISHED && E <= (T ? 60 : 16)) { // stopped again, finished with other threads and bunch sizes
        int R = r.nevals; static const int var[4][2] = {{1, 1}, {3, 1}, {1, 2}, {2, 4}}; for (int j = 0; j < R; ++j) { int v = (k + j) % 4; Out b = rerun(c, {{k, 0, 0}, {j, 0, 0}}); if (b.kind != KILLED) { if (b.kind == BAD) viol(c, "", b.key, b.msg); continue; } vk::count("double_stops"); struct stat bb; last(c, {{k, 0, 0}, {j, 0, 0}}, var[v][0], var[v][1], scan && stat("ff_save/scan", &bb) != 0); } }
      if (debug) fprintf(stderr, "%s stop %d (prime %d) resumed evals %d kind %d %s\n", c.text().c_str(), k, a.nprimes, r.nevals, r.kind, r.what.c_str()); }
  }
  return vk::finish();
}
