// C19: the DEFLATE decoder next to zlib, on streams made by zlib in all its modes, on streams written bit by bit
// (code shapes that zlib never emits), and on damaged ones. Source and destination end at inaccessible pages.
#include "common.hpp"
#include "idna.h"
#include "raw_inflate.hpp"
#include <zlib.h>
#include <memory>

namespace ai = ada::idna;
using Bytes = std::string;

// A buffer whose end is the end of accessible memory.
struct Fence {
  static constexpr size_t kMax = 1 << 20;
  char* base;
  Fence() { base = (char*)mmap(nullptr, kMax + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + kMax, 4096, PROT_NONE); }
  uint8_t* at_end(size_t n) { return (uint8_t*)base + kMax - n; }
};

struct Z { int rc; Bytes out; std::string msg; };
static Z zinflate(const Bytes& s, size_t max) {
  static Bytes room(max, 0);
  Z z{0, Bytes(), ""};
  z_stream st{};
  inflateInit2(&st, -15);
  st.next_in = (Bytef*)s.data(); st.avail_in = (uInt)s.size();
  st.next_out = (Bytef*)room.data(); st.avail_out = (uInt)max;
  z.rc = inflate(&st, Z_FINISH);
  if (st.msg) z.msg = st.msg;
  z.out.assign(room.data(), st.total_out);
  // a full output buffer and nothing decided: not used by the caller, max is generous
  inflateEnd(&st);
  return z;
}
static bool must_refuse(const std::string& m) {
  return m == "invalid block type" || m == "invalid stored block lengths" || m == "invalid distance too far back" || m == "invalid literal/length code" || m == "invalid distance code" || m == "invalid bit length repeat";
}

static Fence fsrc, fdst;
static constexpr size_t kOut = 1 << 19;

// c.a the stream, c.n the capacity + 1, or 0: capacities chosen from the size of the output
static void c19(Ctx& x, const Case& c) {
  Z z = zinflate(c.a, kOut + 64);
  bool end = z.rc == Z_STREAM_END;
  if (!end && z.rc != Z_DATA_ERROR && z.out.size() >= kOut) { x.count("too large, skipped"); return; }
  bool cut = z.rc == Z_BUF_ERROR || z.rc == Z_OK;
  x.count(end ? "zlib: complete" : cut ? "zlib: truncated" : "zlib: " + z.msg);
  x.nontrivial(c.a);
  x.sample(c.kind + " " + std::to_string(c.a.size()) + " bytes: " + hex(c.a.substr(0, 40)) + (end ? " -> " + std::to_string(z.out.size()) + " bytes" : " -> " + z.msg));
  size_t L = z.out.size();
  std::vector<size_t> caps;
  if (c.n) caps = {(size_t)c.n - 1};
  else { caps = {L, L + 1}; if (L) caps.push_back(L - 1); caps.push_back(L / 2); caps.push_back(L + 300); }
  uint8_t* src = fsrc.at_end(c.a.size());
  memcpy(src, c.a.data(), c.a.size());
  for (size_t cap : caps) {
    if (cap > kOut) continue;
    uint8_t* dst = fdst.at_end(cap);
    uint8_t* lead = dst - 64;
    memset(lead, 0xa5, 64 + cap);
    size_t n = ai::deflate::inflate_raw(src, c.a.size(), dst, cap);
    x.count("calls");
    auto desc = [&] { return "stream " + hex(c.a.substr(0, 150)) + (c.a.size() > 150 ? "..." : "") + " (" + std::to_string(c.a.size()) + " bytes), capacity " + std::to_string(cap) + ": returned " + std::to_string(n) + "; zlib: " + (end ? std::to_string(L) + " bytes" : cut ? "truncated" : z.msg); };
    for (int i = 0; i < 64; i++) if (lead[i] != 0xa5) { x.violation("underrun", desc()); break; }
    if (memcmp(src, c.a.data(), c.a.size())) x.violation("source written", desc());
    if (n > cap) x.violation("length", desc());
    if (end && L <= cap) {
      if (n != L) x.violation("valid stream refused", desc());
      else if (memcmp(dst, z.out.data(), L)) { size_t i = 0; while (dst[i] == (uint8_t)z.out[i]) i++; x.violation("wrong output", desc() + ", first difference at " + std::to_string(i)); }
      x.count("decoded and compared");
    } else if (end) { if (n) x.violation("does not fit", desc()); x.count("does not fit"); }
    else if (cut) { if (n) x.violation("truncated accepted", desc()); x.count("refused: truncated"); }
    else if (must_refuse(z.msg)) { if (n) x.violation("invalid accepted", desc()); x.count("refused: invalid"); }
    else x.count("incomplete or oversubscribed code sets: only bounds are judged");
  }
}

// ---- writing streams bit by bit --------------------------------------------------------------------------------
struct Bits {
  Bytes s;
  unsigned acc = 0, n = 0;
  void put(unsigned v, unsigned k) { for (unsigned i = 0; i < k; i++) { acc |= ((v >> i) & 1) << n; if (++n == 8) { s += (char)acc; acc = n = 0; } } }
  void code(unsigned v, unsigned k) { for (unsigned i = k; i-- > 0;) put((v >> i) & 1, 1); }
  void align() { if (n) { s += (char)acc; acc = n = 0; } }
};
struct Code {
  std::vector<int> len;
  std::vector<unsigned> val;
  void assign() {
    val.assign(len.size(), 0);
    unsigned code = 0;
    for (int b = 1; b <= 15; b++) { for (size_t i = 0; i < len.size(); i++) if (len[i] == b) val[i] = code++; code <<= 1; }
  }
  void emit(Bits& b, int sym) const { b.code(val[sym], (unsigned)len[sym]); }
};
// A complete code over the symbols `used`, by splitting leaves at random.
static Code random_code(Rng& r, size_t n, std::vector<int> used, int maxlen) {
  Code c;
  c.len.assign(n, 0);
  if (used.size() == 1) { c.len[used[0]] = 1; c.assign(); return c; }
  std::vector<int> leaves = {1, 1};
  int style = (int)r.below(4);
  while (leaves.size() < used.size()) {
    size_t k = style == 0 ? leaves.size() - 1 : style == 1 ? 0 : r.below(leaves.size());
    for (size_t t = 0; leaves[k] >= maxlen && t < leaves.size(); t++) k = (k + 1) % leaves.size();
    int l = leaves[k] + 1;
    if (l > maxlen) break;
    leaves[k] = l;
    if (style == 1) { leaves.push_back(l); std::rotate(leaves.begin(), leaves.begin() + 1, leaves.end()); } else leaves.push_back(l);
  }
  for (size_t i = leaves.size(); i > 1; i--) std::swap(leaves[i - 1], leaves[r.below(i)]);
  for (size_t i = 0; i < used.size(); i++) c.len[used[i]] = leaves[i];
  c.assign();
  return c;
}
static const int kLenBase[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
static const int kLenExtra[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
static const int kDistBase[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
static const int kDistExtra[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};

struct Writer {
  Rng& r;
  Bits b;
  size_t out = 0;
  bool hostile;
  explicit Writer(Rng& rr, bool h) : r(rr), hostile(h) {}
  void stored(bool fin) {
    b.put(fin, 1); b.put(0, 2);
    if (r.chance(30)) b.put((unsigned)r.below(128), (8 - b.n) % 8);  // padding bits need not be zero
    b.align();
    size_t n = r.chance(20) ? 0 : r.chance(5) ? r.below(65536) : r.below(300);
    unsigned nl = ~(unsigned)n & 0xffff;
    if (hostile && r.chance(20)) nl ^= 1u << r.below(16);
    b.put((unsigned)n, 16); b.put(nl, 16);
    for (size_t i = 0; i < n; i++) b.s += (char)r.below(256);
    out += n;
  }
  // symbols of one block: literals (-1-v) and (length symbol, distance symbol) pairs
  void body(const Code& lit, const Code& dist, const std::vector<int>& lits, const std::vector<int>& lens, const std::vector<int>& dists, size_t count) {
    for (size_t i = 0; i < count; i++) {
      bool match = !lens.empty() && !dists.empty() && (out || hostile) && r.chance(50);
      if (match) {
        int ds = r.pick(dists);
        unsigned de = ds < 30 ? (unsigned)r.below(1ull << kDistExtra[ds]) : 0;
        if (r.chance(15) && ds < 30) de = (1u << kDistExtra[ds]) - 1;
        size_t d = ds < 30 ? kDistBase[ds] + de : 0;
        if (!hostile && (ds >= 30 || d > out)) {
          // shrink the extra bits to fit
          if (ds < 30 && (size_t)kDistBase[ds] <= out) { de = (unsigned)std::min<size_t>(de, out - kDistBase[ds]); d = kDistBase[ds] + de; } else match = false;
        }
        if (match) {
          int ls = r.pick(lens);
          unsigned le = ls < 29 ? (unsigned)r.below(1ull << kLenExtra[ls]) : 0;
          if (r.chance(15) && ls < 29) le = (1u << kLenExtra[ls]) - 1;
          lit.emit(b, 257 + ls);
          if (ls < 29) b.put(le, (unsigned)kLenExtra[ls]);
          dist.emit(b, ds);
          if (ds < 30) b.put(de, (unsigned)kDistExtra[ds]);
          out += ls < 29 ? kLenBase[ls] + le : 0;
        }
      }
      if (!match && !lits.empty()) { lit.emit(b, r.pick(lits)); out++; }
      if (out > 400000) break;
    }
    lit.emit(b, 256);
  }
  void fixed(bool fin) {
    b.put(fin, 1); b.put(1, 2);
    Code lit, dist;
    lit.len.assign(288, 8);
    for (int i = 144; i < 256; i++) lit.len[i] = 9;
    for (int i = 256; i < 280; i++) lit.len[i] = 7;
    dist.len.assign(32, 5);
    lit.assign(); dist.assign();
    std::vector<int> lits, lens, dists;
    for (int i = 0; i < 256; i++) lits.push_back(i);
    for (int i = 0; i < (hostile && r.chance(20) ? 31 : 29); i++) lens.push_back(i);
    for (int i = 0; i < (hostile && r.chance(20) ? 32 : 30); i++) dists.push_back(i);
    body(lit, dist, lits, lens, dists, r.below(200));
  }
  std::vector<int> subset(int n, size_t k) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); v.resize(std::min<size_t>(k, v.size())); return v; }
  void dynamic(bool fin) {
    b.put(fin, 1); b.put(2, 2);
    std::vector<int> lits = subset(256, r.chance(30) ? 1 + r.below(256) : 1 + r.below(40)), lens = subset(29, r.chance(30) ? 29 : r.below(30)), dists = subset(30, r.chance(30) ? 30 : r.below(31));
    if (lens.empty()) dists.clear();
    if (r.chance(10)) { lens.clear(); dists.clear(); }
    if (r.chance(5)) lits.clear();
    std::vector<int> used = lits;
    used.push_back(256);
    for (int l : lens) used.push_back(257 + l);
    int maxlen = r.chance(50) ? 15 : 9 + (int)r.below(7);
    Code lit = random_code(r, 286, used, maxlen);
    Code dist;
    if (dists.empty()) { dist.len.assign(30, 0); dist.assign(); } else dist = random_code(r, 30, dists, maxlen);
    unsigned hlit = 286, hdist = 30;
    if (r.chance(70)) { while (hlit > 257 && !lit.len[hlit - 1]) hlit--; while (hdist > 1 && !dist.len[hdist - 1]) hdist--; }
    std::vector<int> all(lit.len.begin(), lit.len.begin() + hlit);
    all.insert(all.end(), dist.len.begin(), dist.len.begin() + hdist);
    if (hostile && r.chance(15)) all[r.below(all.size())] = (int)r.below(16);
    // run-length coding, at random where there is a choice; runs may cross from the first alphabet to the second
    struct T { int sym; unsigned extra, bits; };
    std::vector<T> ts;
    for (size_t i = 0; i < all.size();) {
      size_t run = 1;
      while (i + run < all.size() && all[i + run] == all[i]) run++;
      if (all[i] == 0 && run >= 11 && r.chance(70)) { size_t k = std::min<size_t>(run, 138); if (r.chance(30)) k = 11 + r.below(k - 10); ts.push_back({18, (unsigned)k - 11, 7}); i += k; }
      else if (all[i] == 0 && run >= 3 && r.chance(70)) { size_t k = std::min<size_t>(run, 10); if (r.chance(30)) k = 3 + r.below(k - 2); ts.push_back({17, (unsigned)k - 3, 3}); i += k; }
      else if (i && all[i] == all[i - 1] && run >= 3 && r.chance(70)) { size_t k = std::min<size_t>(run, 6); if (r.chance(30)) k = 3 + r.below(k - 2); ts.push_back({16, (unsigned)k - 3, 2}); i += k; }
      else { ts.push_back({all[i], 0, 0}); i++; }
    }
    if (hostile && r.chance(15)) { T t = r.chance(40) ? T{18, (unsigned)r.below(128), 7} : r.chance(50) ? T{17, (unsigned)r.below(8), 3} : T{16, (unsigned)r.below(4), 2}; if (r.chance(50)) ts.push_back(t); else ts.insert(ts.begin() + (long)r.below(ts.size()), t); }
    std::vector<int> cused;
    for (auto& t : ts) if (std::find(cused.begin(), cused.end(), t.sym) == cused.end()) cused.push_back(t.sym);
    if (cused.size() == 1) cused.push_back(cused[0] == 0 ? 1 : 0);   // a complete set is needed here
    Code cl = random_code(r, 19, cused, 7);
    static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
    unsigned hclen = 19;
    if (r.chance(80)) while (hclen > 4 && !cl.len[order[hclen - 1]]) hclen--;
    b.put(hlit - 257, 5); b.put(hdist - 1, 5); b.put(hclen - 4, 4);
    for (unsigned i = 0; i < hclen; i++) b.put((unsigned)cl.len[order[i]], 3);
    for (auto& t : ts) { cl.emit(b, t.sym); b.put(t.extra, t.bits); }
    body(lit, dist, lits, lens, dists, r.chance(5) ? r.below(4000) : r.below(200));
  }
  Bytes make() {
    size_t blocks = 1 + (r.chance(50) ? r.below(4) : 0);
    for (size_t i = 0; i < blocks; i++) {
      bool fin = i + 1 == blocks;
      switch (r.below(hostile ? 11 : 10)) {
        case 0: case 1: case 2: stored(fin); break;
        case 3: case 4: fixed(fin); break;
        case 10: b.put(fin, 1); b.put(3, 2); break;
        default: dynamic(fin);
      }
    }
    b.align();
    return b.s;
  }
};

static Bytes zdata(Rng& r) {
  Bytes d;
  size_t n = r.chance(5) ? r.below(150000) : r.chance(40) ? r.below(5000) : r.below(300);
  int style = (int)r.below(5);
  while (d.size() < n) {
    switch (style) {
      case 0: d += (char)r.below(256); break;
      case 1: d += (char)('a' + r.below(3)); break;
      case 2: d.append(1 + r.below(600), (char)r.below(256)); break;
      case 3: if (d.size() > 10 && r.chance(70)) { size_t p = r.below(d.size()), k = 1 + r.below(300); for (size_t i = 0; i < k; i++) d += d[p + i]; } else d += (char)r.below(256); break;
      default: if (r.chance(3) && d.size() > 33000) { size_t p = d.size() - 20000 - r.below(12768); for (size_t i = 0; i < 300; i++) d += d[p + i]; } else d += (char)(r.below(16) * r.below(16));
    }
  }
  d.resize(n);
  return d;
}
static Bytes zstream(Rng& r) {
  Bytes d = zdata(r), o(d.size() * 2 + 4096, 0);
  z_stream st{};
  static const int strat[] = {Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED};
  deflateInit2(&st, (int)r.below(10), Z_DEFLATED, -(9 + (int)r.below(7)), 1 + (int)r.below(9), strat[r.below(5)]);
  st.next_out = (Bytef*)o.data(); st.avail_out = (uInt)o.size();
  size_t pos = 0;
  static const int flush[] = {Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK};
  int parts = r.chance(50) ? 1 : 1 + (int)r.below(6);
  for (int i = 0; i < parts; i++) {
    size_t k = i + 1 == parts ? d.size() - pos : r.below(d.size() - pos + 1);
    st.next_in = (Bytef*)d.data() + pos; st.avail_in = (uInt)k;
    if (i && r.chance(20)) deflateParams(&st, (int)r.below(10), strat[r.below(5)]);
    deflate(&st, i + 1 == parts ? Z_FINISH : flush[r.below(5)]);
    pos += k;
  }
  o.resize(st.total_out);
  deflateEnd(&st);
  return o;
}

static void generate(Ctx& x) {
  Rng r(x.seed * 1000003 + x.shard * 7919 + 19);
  auto mk = [](const char* k, const Bytes& s, uint64_t cap = 0) { Case c; c.kind = k; c.a = s; c.n = cap; return c; };
  // all streams of up to two bytes, and short ones behind each header
  if (x.shard == 0) { x.run(mk("short", "")); for (int a = 0; a < 256; a++) x.run(mk("short", Bytes(1, (char)a))); }
  for (int a = (int)x.shard; a < 256; a += (int)x.shards) for (int b = 0; b < 256; b++) { Bytes s{(char)a, (char)b}; x.run(mk("short", s)); if (x.thorough() || b % 8 == 0) for (int c = 0; c < 256; c++) x.run(mk("short", s + (char)c)); }
  uint64_t n = x.budget(120000, 5000000);
  for (uint64_t i = 0; i < n; i++) {
    Bytes s;
    const char* kind;
    switch (i % 5) {
      case 0: s = zstream(r); kind = "zlib"; break;
      case 1: case 2: s = Writer(r, false).make(); kind = "written"; break;
      case 3: s = Writer(r, true).make(); kind = "hostile"; break;
      default: { size_t k = r.below(60); while (k--) s += (char)r.below(256); if (!s.empty()) s[0] = (char)((s[0] & ~7) | (r.chance(80) ? 5 : r.below(8))); kind = "noise"; }
    }
    if (s.size() > Fence::kMax / 2) continue;
    x.run(mk(kind, s));
    if (s.empty()) continue;
    if (s.size() < 3000 || i % 16 == 0) {
      Bytes t = s.substr(0, s.size() - 1);
      x.run(mk("truncated", t));
      if (s.size() < 60) for (size_t k = 1; k + 1 < s.size(); k++) x.run(mk("truncated", s.substr(0, k)));
      else { x.run(mk("truncated", s.substr(0, r.below(s.size())))); x.run(mk("truncated", s.substr(0, s.size() - 2))); }
      t = s;
      t[r.below(t.size())] ^= (char)(1 << r.below(8));
      x.run(mk("bit flip", t));
      t[r.below(std::min<size_t>(t.size(), 40))] = (char)r.below(256);
      x.run(mk("damaged", t));
      x.run(mk("tail", s + Bytes(1 + r.below(5), (char)r.below(256))));
      x.run(mk("capacity", s, 1 + r.below(r.chance(50) ? 8 : 4000)));
    }
  }
}
int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  Ctx x;
  x.check = c19;
  x.fuzz_fix = [](Case& c) { if (c.n > 2000 || c.n % 4) c.n = 0; return true; };
  return harness_main(argc, argv, x, generate);
}
