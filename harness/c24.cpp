// C24: compressed streams - all short operation sequences against std::stringstream / byte-string oracles, with tiny buffers where possible.
#include "vk.hpp"
#include "firefly/gzstream.hpp"
#include <sstream>
#include <memory>
#include <zlib.h>
using namespace firefly;
#ifdef HAVE_BUFSIZE
template<int* Q> struct Rob { friend int* bufsize_ptr() { return Q; } };
int* bufsize_ptr();
template struct Rob<&gzstreambuf::bufferSize>;
static void setbuf_(int n) { *bufsize_ptr() = n; }
static const bool tiny = true;
#else
static void setbuf_(int) {}
static const bool tiny = false;
#endif
static std::string dir;
static std::string rd(const std::string& f) { std::string r; gzFile g = gzopen(f.c_str(), "rb"); if (!g) return "<missing>"; char b[4096]; int n; while ((n = gzread(g, b, sizeof b)) > 0) r.append(b, n); if (n < 0) r += "<error>"; gzclose(g); return r; }
static void wr(const std::string& f, const std::string& s) { gzFile g = gzopen(f.c_str(), "wb"); if (!s.empty()) gzwrite(g, s.data(), s.size()); gzclose(g); }
static std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r.size() > 120 ? r.substr(0, 120) + ".." : r; }
// ---- writers
static void writers(int depth, const std::vector<int>& bufs) {
  const std::string chunks[3] = {std::string(1, '\xff'), std::string("a\0\n", 3), std::string("0123456789\xfe", 11)};
  const int NOP = 11; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= NOP;
  const std::string A = dir + "/a.gz", Bf = dir + "/b.gz", M = dir + "/no/such.gz";
  for (int bs : bufs) for (uint64_t c = 0; c < tot; ++c) {
    if (!vk::mine()) continue;
    setbuf_(bs); std::string h = "buf" + std::to_string(bs);
    unlink(A.c_str()); unlink(Bf.c_str()); std::string ca = "<missing>", cb = "<missing>"; // expected contents
    std::unique_ptr<ogzstream> o(new ogzstream); std::string* cur = nullptr; bool bad = false; // bad: stream state after misuse
    uint64_t t = c;
    for (int d = 0; d < depth; ++d) {
      int op = t % NOP; t /= NOP; static const char* nm[] = {"put1", "put3", "put11", "flush", "endl", "closing", "openA", "openB", "appendA", "openMissing", "outapp"}; h += std::string(" ") + nm[op]; vk::cur(h);
      if (op <= 2) { o->write(chunks[op].data(), chunks[op].size()); if (!bad) { if (cur) *cur += chunks[op]; else bad = true; } }
      else if (op == 3) { o->flush(); }
      else if (op == 4) { *o << std::endl; if (!bad) { if (cur) *cur += "\n"; else bad = true; } }
      else if (op == 5) { o->close(); cur = nullptr; }
      else { const std::string& f = op == 7 ? Bf : op == 9 ? M : A; int mode = op == 8 ? (int)std::ios::app : op == 10 ? (int)(std::ios::out | std::ios::app) : (int)std::ios::out;
        o->open(f.c_str(), mode);
        if (cur || op == 9) bad = true; // opening twice and opening something impossible are failures
        else { cur = op == 7 ? &cb : &ca; if (op == 6 || op == 7) *cur = ""; else if (*cur == "<missing>") *cur = ""; } }
      vk::eval();
      if (bad != o->fail() && !(bad && op == 3)) { vk::violation(bad ? "write_misuse_accepted" : "write_failed", std::string(bad ? "misuse is not reported" : "a valid operation failed") + " after " + h); break; }
      if (bad) { o->clear(); bad = false; }
    }
    if (c & 1) { o->close(); if (o->fail()) vk::violation("close_failed", h); }
    o.reset(); // destruction closes the file
    vk::eval(2); vk::nontrivial();
    if (rd(A) != ca) vk::violation("content", "file A is " + hex(rd(A)) + " expected " + hex(ca) + " after " + h);
    if (rd(Bf) != cb) vk::violation("content", "file B is " + hex(rd(Bf)) + " expected " + hex(cb) + " after " + h);
  }
}
// ---- readers: differential against std::istringstream on the same bytes
static void readers(int depth, const std::vector<int>& bufs) {
  std::vector<std::string> contents {"", "a", "\n", "ab\n12 -3 \xff x", std::string("7\0 9\n\n z", 8), "0123456789abcdefghij\nklm 55 66\n"};
  const int NOP = 11; uint64_t tot = 1; for (int i = 0; i < depth; ++i) tot *= NOP;
  const std::string A = dir + "/r.gz";
  for (auto& ct : contents) {
    wr(A, ct);
    for (int bs : bufs) for (uint64_t c = 0; c < tot; ++c) {
      if (!vk::mine()) continue;
      setbuf_(bs); igzstream g(A.c_str()); std::istringstream s(ct); std::string h = "content " + hex(ct) + " buf" + std::to_string(bs);
      uint64_t t = c; bool last_get = false;
      for (int d = 0; d < depth; ++d) {
        int op = t % NOP; t /= NOP; static const char* nm[] = {"get", "read2", "read5", "read40", "getline", ">>int", ">>str", "peek", "unget", "ignore3", "clear"}; h += std::string(" ") + nm[op];
        std::string a, b; bool lg = false;
        auto run = [&](std::istream& i) { std::string r; char q[64]; switch (op) {
          case 0: r = std::to_string(i.get()); break; case 1: i.read(q, 2); r.assign(q, i.gcount()); break; case 2: i.read(q, 5); r.assign(q, i.gcount()); break; case 3: i.read(q, 40); r.assign(q, i.gcount()); break;
          case 4: std::getline(i, r); break; case 5: { long v = -7; i >> v; r = std::to_string(v); break; } case 6: i >> r; break; case 7: r = std::to_string(i.peek()); break; case 8: if (last_get) i.unget(); break; case 9: i.ignore(3); break; case 10: i.clear(); break; }
          return r + "|" + std::to_string(i.rdstate()) + "|" + std::to_string(i.gcount()); };
        a = run(g); b = run(s); lg = op == 0 && s.good(); last_get = lg; vk::eval();
        if (a != b) { vk::violation(std::string("read_") + nm[op], "read " + hex(a) + " (" + a + ") expected " + hex(b) + " (" + b + ") after " + h); break; }
      }
      vk::nontrivial();
    }
  }
  // reopening: nothing of the old file may be seen in the new one
  const std::string Bf = dir + "/r2.gz", M = dir + "/missing.gz"; wr(A, "first content 123456"); wr(Bf, "SECOND"); unlink(M.c_str());
  for (int bs : bufs) for (int n = 0; n < 24; ++n) {
    setbuf_(bs); igzstream g; vk::eval(4); char q[64]; std::string in = "buf " + std::to_string(bs) + " after " + std::to_string(n) + " bytes"; vk::cur("reopen " + in);
    if (g.get() != EOF) vk::violation("read_unopened", in); g.clear();
    g.open(A.c_str()); g.read(q, n); g.clear(); g.close(); if (g.get() != EOF) vk::violation("read_closed", in); g.clear();
    g.open(M.c_str()); if (!g.fail()) vk::violation("open_missing", in); g.clear(); if (access(M.c_str(), F_OK) == 0) { vk::violation("missing_created", in); unlink(M.c_str()); }
    g.open(Bf.c_str()); std::string r; std::getline(g, r); if (r != "SECOND" || !g.eof()) vk::violation("reopen_stale", "after reopening " + in + " got \"" + r + "\""); g.clear();
    g.open(A.c_str()); if (!g.fail()) vk::violation("double_open", in);
  }
  { igzstream g((dir + "/missing.gz").c_str()); vk::eval(); if (!g.fail() || g.get() != EOF) vk::violation("open_missing", "constructor"); }
  { // plain files are read transparently, as gzip readers do
    FILE* f = fopen(A.c_str(), "wb"); fputs("plain text\nline2", f); fclose(f); igzstream g(A.c_str()); std::string l1, l2; std::getline(g, l1); std::getline(g, l2); vk::eval(); if (l1 != "plain text" || l2 != "line2") vk::violation("plain", l1); }
}
static void bytes() {
  // every byte value and every length around the buffer boundaries survives a round trip
  const std::string A = dir + "/x.gz";
  for (int bs : tiny ? std::vector<int>{6, 7, 16, 64} : std::vector<int>{0}) for (int len = 0; len < 160; ++len) for (int step : {1, 7}) {
    if (!vk::mine()) continue;
    setbuf_(bs); std::string d; for (int i = 0; i < len; ++i) d += (char)(i * step * 5 + len); vk::cur("bytes " + std::to_string(len));
    { ogzstream o(A.c_str()); if (step == 1) for (char c : d) o.put(c); else o << d; }
    igzstream g(A.c_str()); std::string r; int c; while ((c = g.get()) != EOF) r += (char)c; vk::eval(); vk::nontrivial(); if (r != d || rd(A) != d) vk::violation("roundtrip", "length " + std::to_string(len) + " buf " + std::to_string(bs)); }
  // many lines, as state files are written
  for (int lines : {0, 1, 100, 20000}) { if (!vk::mine()) continue; setbuf_(tiny ? 4096 : 0); std::vector<std::string> v; { ogzstream o(A.c_str()); for (int i = 0; i < lines; ++i) { std::string l = std::to_string(i * 7919L) + " " + std::string(i % 300, 'q'); v.push_back(l); o << l << "\n"; } }
    igzstream g(A.c_str()); std::string l; size_t k = 0; bool ok = true; while (std::getline(g, l)) { if (k >= v.size() || l != v[k]) ok = false; ++k; } vk::eval(); if (!ok || k != v.size()) vk::violation("lines", std::to_string(lines)); }
}
int main(int argc, char** argv) {
  vk::init(argc, argv);
  dir = std::string(getenv("VK_DIR") ? getenv("VK_DIR") : ".");
  bool th = vk::thorough(); std::vector<int> b = tiny ? (th ? std::vector<int>{6, 7, 9, 16, 4096} : std::vector<int>{7, 16}) : std::vector<int>{0};
  writers(th ? 5 : 4, b); readers(th ? 5 : 4, b); bytes();
  vk::count(tiny ? "tiny_buffers" : "original_buffers");
  vk::sample("all writer and reader operation sequences of the stated depth over 11 operations each");
  vk::finish();
}
