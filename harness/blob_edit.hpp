// Damage that a weak check would not notice: an own DEFLATE reader that remembers where every literal of the embedded
// stream sits, so that literals can be exchanged for others with a code of the same length. The stream stays well
// formed, the output keeps its size, and combinations can be chosen for which a chosen part of the CRC-32 does not
// change (the CRC is linear over GF(2), so elimination finds them).
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace blob {
struct Code { uint16_t code; uint8_t len; };
struct Lit { size_t bit; uint8_t len, value; uint32_t block, out; };
struct Read {
  bool ok = false;
  std::vector<uint8_t> out;
  std::vector<uint32_t> origin;             // per output byte, the literal it comes from (UINT32_MAX: stored)
  std::vector<Lit> lits;
  std::vector<std::vector<Code>> codes;     // literal/length code of each block
  size_t last_block_from = 0;               // first output byte of the final block
};
static const uint16_t kLB[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
static const uint8_t kLE[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
static const uint16_t kDB[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
static const uint8_t kDE[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};

struct Bits {
  const uint8_t* p;
  size_t n, pos = 0;
  bool bad = false;
  uint32_t get(int k) {
    uint32_t v = 0;
    for (int i = 0; i < k; i++, pos++) {
      if (pos >= n * 8) { bad = true; return 0; }
      v |= (uint32_t)(p[pos >> 3] >> (pos & 7) & 1) << i;
    }
    return v;
  }
};
struct Tree {
  std::vector<Code> c;
  std::vector<int16_t> by;   // 1 << len | code -> symbol
  void make(const uint8_t* l, int n) {
    c.assign(n, {0, 0});
    by.assign(1 << 16, -1);
    unsigned cnt[17] = {0}, next[17] = {0}, code = 0;
    for (int i = 0; i < n; i++) cnt[l[i]]++;
    cnt[0] = 0;
    for (int b = 1; b <= 15; b++) { code = (code + cnt[b - 1]) << 1; next[b] = code; }
    for (int i = 0; i < n; i++) if (l[i]) { c[i] = {(uint16_t)next[l[i]]++, l[i]}; by[(1u << l[i] | c[i].code) & 0xffff] = (int16_t)i; }
  }
  int read(Bits& b) const {
    uint32_t code = 0;
    for (int len = 1; len <= 15; len++) {
      code = code << 1 | b.get(1);
      if (b.bad) return -1;
      if (by[1u << len | code] >= 0) return by[1u << len | code];
    }
    return -1;
  }
};
static inline Read read(const uint8_t* p, size_t n, size_t max_out) {
  Read r;
  Bits b{p, n};
  for (bool last = false; !last;) {
    last = b.get(1);
    unsigned type = b.get(2);
    if (b.bad || type == 3) return r;
    if (last) r.last_block_from = r.out.size();
    if (type == 0) {
      b.pos = (b.pos + 7) & ~(size_t)7;
      unsigned len = b.get(16), nlen = b.get(16);
      if (b.bad || (len ^ 0xffff) != nlen) return r;
      for (unsigned i = 0; i < len; i++) { r.out.push_back((uint8_t)b.get(8)); r.origin.push_back(UINT32_MAX); if (b.bad || r.out.size() > max_out) return r; }
      continue;
    }
    uint8_t l[320] = {0};
    int hl = 288, hd = 30;
    if (type == 1) {
      for (int i = 0; i < 288; i++) l[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
      for (int i = 0; i < 30; i++) l[288 + i] = 5;
    } else {
      hl = 257 + b.get(5); hd = 1 + b.get(5);
      int hc = 4 + b.get(4);
      static const uint8_t ord[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
      uint8_t cl[19] = {0};
      for (int i = 0; i < hc; i++) cl[ord[i]] = (uint8_t)b.get(3);
      if (b.bad || hl > 286 || hd > 30) return r;
      Tree t;
      t.make(cl, 19);
      for (int i = 0; i < hl + hd;) {
        int s = t.read(b);
        if (s < 0) return r;
        if (s < 16) { l[i++] = (uint8_t)s; continue; }
        int rep = s == 16 ? 3 + b.get(2) : s == 17 ? 3 + b.get(3) : 11 + b.get(7);
        if (b.bad || i + rep > hl + hd || (s == 16 && !i)) return r;
        uint8_t v = s == 16 ? l[i - 1] : 0;
        while (rep--) l[i++] = v;
      }
    }
    Tree lt, dt;
    lt.make(l, hl);
    dt.make(l + hl, hd);
    uint32_t block = r.codes.size();
    r.codes.push_back(lt.c);
    for (;;) {
      size_t at = b.pos;
      int s = lt.read(b);
      if (s < 0) return r;
      if (s == 256) break;
      if (r.out.size() > max_out) return r;
      if (s < 256) {
        r.origin.push_back(r.lits.size());
        r.lits.push_back({at, (uint8_t)(b.pos - at), (uint8_t)s, block, (uint32_t)r.out.size()});
        r.out.push_back((uint8_t)s);
        continue;
      }
      if (s > 285) return r;
      unsigned len = kLB[s - 257] + b.get(kLE[s - 257]);
      int d = dt.read(b);
      if (d < 0 || d > 29) return r;
      size_t dist = kDB[d] + b.get(kDE[d]);
      if (b.bad || dist > r.out.size()) return r;
      while (len--) { r.out.push_back(r.out[r.out.size() - dist]); r.origin.push_back(r.origin[r.origin.size() - dist]); }
    }
  }
  r.ok = !b.bad;
  return r;
}
static inline uint32_t crc(const uint8_t* p, size_t n) {
  static uint32_t t[256];
  if (!t[1]) for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; t[i] = c; }
  uint32_t c = ~0u;
  for (size_t i = 0; i < n; i++) c = c >> 8 ^ t[(c ^ p[i]) & 255];
  return ~c;
}
// Writes a Huffman code (most significant bit first) at a bit position.
static inline void put(std::vector<uint8_t>& s, size_t bit, Code c) {
  for (int i = c.len - 1; i >= 0; i--, bit++) {
    uint8_t m = (uint8_t)(1 << (bit & 7));
    if (c.code >> i & 1) s[bit >> 3] |= m; else s[bit >> 3] &= (uint8_t)~m;
  }
}
struct Edit { uint32_t lit; uint8_t to; };
// Another literal with a code of the same length, or false.
template <class R>
static bool other(const Read& r, uint32_t k, R& rng, Edit& e) {
  const Lit& l = r.lits[k];
  const auto& c = r.codes[l.block];
  unsigned from = rng.below(256);
  for (unsigned i = 0; i < 256; i++) {
    unsigned v = (from + i) & 255;
    if (v != l.value && v < c.size() && c[v].len == l.len) { e = {k, (uint8_t)v}; return true; }
  }
  return false;
}
static inline std::vector<uint8_t> apply(const Read& r, const uint8_t* p, size_t n, const std::vector<Edit>& es) {
  std::vector<uint8_t> s(p, p + n);
  for (auto& e : es) put(s, r.lits[e.lit].bit, r.codes[r.lits[e.lit].block][e.to]);
  return s;
}
static inline std::vector<uint8_t> output(const Read& r, const std::vector<Edit>& es) {
  std::vector<uint8_t> o = r.out;
  for (auto& e : es) for (size_t i = 0; i < o.size(); i++) if (r.origin[i] == e.lit) o[i] = e.to;
  return o;
}
// A combination of the edits whose effect under `sig` (linear: sig(a) ^ sig(b) for independent edits) vanishes in `mask`.
static inline std::vector<Edit> cancel(const std::vector<Edit>& es, const std::vector<uint32_t>& sig, uint32_t mask) {
  struct Row { uint32_t v; std::vector<uint32_t> set; };
  Row basis[32];
  bool have[32] = {false};
  for (uint32_t i = 0; i < es.size(); i++) {
    Row w{sig[i] & mask, {i}};
    for (int b = 31; b >= 0; b--) {
      if (!(w.v >> b & 1)) continue;
      if (!have[b]) { basis[b] = w; have[b] = true; w.set.clear(); break; }
      w.v ^= basis[b].v;
      std::vector<uint32_t> t;
      std::map<uint32_t, int> n;
      for (auto k : w.set) n[k]++;
      for (auto k : basis[b].set) n[k]++;
      for (auto& [k, c] : n) if (c & 1) t.push_back(k);
      w.set = t;
    }
    if (!w.v && !w.set.empty()) {
      std::vector<Edit> o;
      for (auto k : w.set) o.push_back(es[k]);
      return o;
    }
  }
  return {};
}
}  // namespace blob
