// Workload generation. Everything is drawn from one seeded generator.
#pragma once
#include <algorithm>
#include "ref.hpp"

struct Rng {
  uint64_t s;
  // (the seed is scrambled first: seeds that differ by k must not give streams shifted by k)
  explicit Rng(uint64_t seed) : s(seed) { s = next() ^ (seed * 0xd6e8feb86659fd93ull); s = next() + 0x632be59bd9b4e019ull; s = next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(unsigned pct) { return below(100) < pct; }
  template <class V> auto& pick(const V& v) { return v[below(v.size())]; }
};

struct Gen {
  using u32s = ref::u32s;
  const ref::Ucd& u;
  Rng r;
  std::vector<char32_t> valid, mapped, ignored, disallowed, multi, lead_mark;
  std::vector<char32_t> bidi[16], join[4], virama, marks, starters2, decomposable, excluded, hl, hv, ht;
  std::vector<std::pair<char32_t, char32_t>> pairs;
  std::vector<char32_t> valid_bidi[16];  // valid code points per class
  std::vector<char32_t> stale;
  bool avoid_stale;
  std::vector<std::pair<char32_t, char32_t>> blocks;  // runs of valid code points
  std::vector<char32_t> line;   // what may stand in a domain (most ideographs and syllables aside), in order, for windows
  explicit Gen(const ref::Ucd& ucd, const ref::Ucd& overlay, uint64_t seed, bool avoid = true) : u(ucd), r(seed), avoid_stale(avoid) {
    auto skip = [&](char32_t c) { return avoid && overlay.stale.count(c); };
    for (char32_t c = 0x80; c <= 0x10ffff; c++) {
      if (!ref::scalar(c)) continue;
      if (overlay.stale.count(c)) stale.push_back(c);
      if (skip(c)) continue;
      bool bulk = (c >= 0x3400 && c < 0xa000 && c % 64) || (c >= 0xac00 && c < 0xd7a4 && c % 16) || (c >= 0x12000 && c < 0x18cd6 && c % 16 > 2 && !u.mark(c)) || c >= 0x1f980;
      if (u.status[c] != ref::DIS && !bulk) line.push_back(c);
      switch (u.status[c]) {
        case ref::VAL:
          valid.push_back(c);
          valid_bidi[u.bidi[c]].push_back(c);
          if (blocks.empty() || blocks.back().second != c - 1) blocks.push_back({c, c}); else blocks.back().second = c;
          break;
        case ref::MAP: mapped.push_back(c); if (u.mapping.at(c).size() > 1) multi.push_back(c); break;
        case ref::IGN: ignored.push_back(c); break;
        case ref::DIS: if (c < 0x20000 || c % 997 == 0) disallowed.push_back(c); break;
      }
      if (u.ccc[c]) marks.push_back(c);
      if (u.status[c] == ref::VAL && u.mark(c)) lead_mark.push_back(c);
      if (u.virama(c) && u.status[c] == ref::VAL) virama.push_back(c);
      if (u.jt[c] && u.status[c] == ref::VAL) join[u.jt[c] == 'L' ? 0 : u.jt[c] == 'D' ? 1 : u.jt[c] == 'T' ? 2 : 3].push_back(c);
      if (u.dec.count(c)) {
        decomposable.push_back(c);
        if (ref::nfc(u, u32s(1, c)) != u32s(1, c)) excluded.push_back(c);
      }
    }
    for (auto& p : u.pair) {
      char32_t a = p.first >> 32, b = (char32_t)p.first;
      if (skip(a) || skip(b) || skip(p.second)) continue;
      pairs.push_back({a, b});
    }
    std::sort(pairs.begin(), pairs.end());
    for (char32_t c = 0x1100; c <= 0x1112; c++) hl.push_back(c);
    for (char32_t c = 0x1161; c <= 0x1175; c++) hv.push_back(c);
    for (char32_t c = 0x11a8; c <= 0x11c2; c++) ht.push_back(c);
  }
  char32_t ascii_ldh() { return "abcdefghijklmnopqrstuvwxyz0123456789-"[r.below(37)]; }
  char32_t ascii_any() {
    switch (r.below(8)) {
      case 0: return 'A' + r.below(26);
      case 1: { char32_t c = r.below(128); return c == '.' ? 'z' : c; }
      default: return ascii_ldh();
    }
  }
  char32_t hangul() {
    switch (r.below(6)) {
      case 0: return r.pick(hl);
      case 1: return r.pick(hv);
      case 2: return r.pick(ht);
      case 3: return 0xac00 + 28 * r.below(399);
      case 4: return 0xac00 + r.below(11172);
      default: { static const char32_t e[] = {0x10ff, 0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x1176, 0x11a6, 0x11a7, 0x11a8, 0x11c2, 0x11c3, 0xabff, 0xac00, 0xac01, 0xac1b, 0xac1c, 0xd788, 0xd7a3, 0xd7a4}; return e[r.below(21)]; }
    }
  }
  // any scalar value, biased to the boundaries of blocks
  char32_t any_scalar() {
    char32_t c;
    switch (r.below(6)) {
      case 0: c = r.below(0x800); break;
      case 1: c = r.below(0x3000); break;
      case 2: c = r.below(0x10000); break;
      case 3: c = 0x10000 + r.below(0x22000); break;
      case 4: { auto& b = r.pick(blocks); c = (r.chance(50) ? b.first : b.second) + (int)r.below(3) - 1; break; }
      default: c = r.below(0x110000);
    }
    if (!ref::scalar(c)) c = 0xe000;
    return c;
  }
  char32_t dot() { static const char32_t d[] = {'.', '.', '.', '.', 0x3002, 0xff0e, 0xff61}; return d[r.below(7)]; }
  char32_t valid_any() {
    switch (r.below(4)) {
      case 0: { auto& b = r.pick(blocks); return b.first + r.below(b.second - b.first + 1); }
      case 1: { auto& b = r.pick(blocks); return r.chance(50) ? b.first : b.second; }
      case 2: return r.pick(valid);
      default: { char32_t c; int n = 0; do c = valid[r.below(std::min<size_t>(valid.size(), 6000))]; while (u.mark(c) && n++ < 2); return c; }
    }
  }
  u32s label_mixed() {
    u32s l;
    size_t n = 1 + r.below(r.chance(10) ? 30 : 8);
    for (size_t i = 0; i < n; i++) {
      switch (r.below(20)) {
        case 0: case 1: case 2: l += valid_any(); break;
        case 3: case 4: l += r.pick(mapped); break;
        case 5: l += r.pick(ignored); break;
        case 6: l += r.pick(marks); break;
        case 7: l += r.pick(decomposable); break;
        case 8: if (r.chance(6)) l += r.pick(disallowed); else l += ascii_ldh(); break;
        case 9: if (r.chance(20)) l += any_scalar(); else l += valid_any(); break;
        case 10: if (r.chance(25)) l += (char32_t)(0x200c + r.below(2)); else l += ascii_any(); break;
        case 11: l += hangul(); break;
        case 12: { static const char32_t d[] = {0xdf, 0x3c2, 0x3c3, 0x130, 0x131, 0x1e9e, 0x17f, 0x212a, 0x2126, 0x212b, 0xa8, 0xb4, 0x37e, 0x387}; l += d[r.below(14)]; break; }
        case 13: if (r.chance(30)) l += r.pick(multi); else l += ascii_ldh(); break;
        default: l += r.chance(85) ? ascii_ldh() : ascii_any();
      }
    }
    return l;
  }
  u32s label_script() {  // letters of one neighbourhood, some marks
    u32s l;
    auto b = r.pick(blocks);
    size_t n = 1 + r.below(10);
    for (size_t i = 0; i < n; i++) {
      if (r.chance(8)) b = r.pick(blocks);
      l += r.chance(10) ? ascii_ldh() : b.first + r.below(std::min<size_t>(b.second - b.first + 1, 64));
    }
    return l;
  }
  u32s label_bidi() {
    static const uint8_t cls[] = {ref::bL, ref::bR, ref::bAL, ref::bAN, ref::bEN, ref::bES, ref::bCS, ref::bET, ref::bON, ref::bNSM, ref::bR, ref::bAL};
    u32s l;
    size_t n = 1 + r.below(7);
    int style = r.below(4);  // 0 anything, 1 RTL-ish, 2 LTR-ish, 3 anything
    for (size_t i = 0; i < n; i++) {
      uint8_t k = cls[r.below(12)];
      if (style == 1 && (i == 0 || r.chance(50))) k = r.chance(50) ? ref::bR : ref::bAL;
      if (style == 1 && i + 1 == n && r.chance(60)) { static const uint8_t e[] = {ref::bR, ref::bAL, ref::bEN, ref::bAN, ref::bNSM}; k = e[r.below(5)]; }
      if (style == 2 && (i == 0 || r.chance(60))) k = ref::bL;
      if (valid_bidi[k].empty() || (k == ref::bL && r.chance(30)) || (k == ref::bEN && r.chance(50)) || (k == ref::bES && r.chance(60))) {
        l += k == ref::bL ? (char32_t)('a' + r.below(26)) : k == ref::bEN ? (char32_t)('0' + r.below(10)) : k == ref::bES ? (char32_t)('-') : (char32_t)'_';
        continue;
      }
      if (k == ref::bCS && r.chance(30)) { l += (char32_t)','; continue; }
      if (k == ref::bET && r.chance(30)) { l += (char32_t)'$'; continue; }
      // early code points of each class often, all of them sometimes
      auto& v = valid_bidi[k];
      l += r.chance(40) ? v[r.below(std::min<size_t>(v.size(), 60))] : r.pick(v);
    }
    return l;
  }
  u32s label_join() {
    u32s l;
    size_t n = 1 + r.below(7);
    for (size_t i = 0; i < n; i++) {
      switch (r.below(10)) {
        case 0: l += r.pick(join[0]); break;
        case 1: case 2: l += r.pick(join[1]); break;
        case 3: l += r.pick(join[2]); break;
        case 4: l += r.pick(join[3]); break;
        case 5: l += r.pick(virama); break;
        case 6: case 7: l += (char32_t)0x200c; break;
        case 8: l += (char32_t)0x200d; break;
        default: l += r.chance(50) ? ascii_ldh() : valid_any();
      }
    }
    if (r.chance(40)) {  // plant a pattern
      u32s p;
      p += r.chance(85) ? r.pick(join[1]) : r.pick(join[0]);
      while (r.chance(40)) p += r.pick(join[2]);
      p += (char32_t)0x200c;
      while (r.chance(40)) p += r.pick(join[2]);
      p += r.pick(join[r.chance(50) ? 1 : 3]);
      if (r.chance(30)) { p += r.pick(virama); p += (char32_t)(0x200c + r.below(2)); }
      if (r.chance(50)) l = p; else l.insert(r.below(l.size() + 1), p);
    }
    return l;
  }
  u32s label_norm() {
    u32s l;
    size_t n = 1 + r.below(8);
    for (size_t i = 0; i < n; i++) {
      switch (r.below(8)) {
        case 0: case 1: { auto p = r.pick(pairs); l += p.first; if (r.chance(40)) l += r.pick(marks); l += p.second; break; }
        case 2: l += r.pick(decomposable); break;
        case 3: l += r.pick(marks); break;
        case 4: { char32_t c = r.pick(decomposable); u32s d = ref::nfd(u, u32s(1, c)); if (r.chance(30) && d.size() > 1) std::swap(d[r.below(d.size())], d[r.below(d.size())]); l += d; break; }
        case 5: l += hangul(); break;
        case 6: { auto p = r.pick(pairs); l += p.first; size_t k = r.below(4); while (k--) l += r.pick(pairs).second; break; }
        default: l += r.chance(50) ? (char32_t)('a' + r.below(26)) : valid_any();
      }
    }
    return l;
  }
  // Text from one to three narrow ranges of code points, short or long: what takes a path for one script or range only
  u32s label_window() {
    u32s l;
    size_t wins = 1 + (r.chance(30) ? 1 + r.below(2) : 0), n = r.chance(60) ? 1 + r.below(12) : r.chance(65) ? 10 + r.below(60) : 60 + r.below(150);
    unsigned low = r.chance(30) ? 30 : 0, mk = r.chance(50) ? 30 : 5;
    std::vector<std::pair<size_t, size_t>> w;
    std::vector<char32_t> m;
    for (size_t i = 0; i < wins; i++) {
      char32_t c;
      switch (r.below(6)) {
        case 0: c = r.pick(decomposable); break;
        case 1: c = r.pick(join[1 + r.below(3)]); break;
        case 2: { auto p = r.pick(pairs); c = r.chance(50) ? p.first : p.second; break; }
        case 3: c = r.pick(blocks).first; break;
        default: c = r.pick(marks);
      }
      size_t k = std::lower_bound(line.begin(), line.end(), c) - line.begin(), size = r.chance(50) ? 4 + r.below(30) : 30 + r.below(200), back = r.below(size);
      k = k > back ? k - back : 0;
      w.push_back({k, std::min(k + size, line.size())});
      for (size_t j = w[i].first; j < w[i].second; j++) if (u.mark(line[j])) m.push_back(line[j]);
    }
    auto any = [&] { auto& v = r.pick(w); return v.second > v.first ? line[v.first + r.below(v.second - v.first)] : (char32_t)0xfc; };
    for (size_t i = 0; i < n; i++) {
      if (r.chance(low)) l += ascii_ldh();
      else if (!m.empty() && r.chance(mk)) l += r.pick(m);
      else l += any();
    }
    if (u.mark(l[0]) && r.chance(80)) { char32_t c = any(); for (int k = 0; k < 30 && u.mark(c); k++) c = any(); l.insert(0, 1, c); }
    if (r.chance(30)) for (char32_t& c : l) if (u.mark(c) && !m.empty()) c = m[0];
    return l;
  }
  // Lengths at which a count of 8, 15, 16 or 17 bits would run over, and others
  size_t giant_size() {
    static const size_t s[] = {65535, 65536, 65537, 65534, 65538, 65600, 70000, 90000, 131071, 131072, 131073, 140000, 32767, 32768, 32769, 16383, 16384, 16385, 255, 256, 257, 4095, 4096, 4097};
    size_t k = s[r.chance(60) ? r.below(12) : r.below(24)];
    return r.chance(60) ? k : k + r.below(300);
  }
  // Very long text: long runs with some other code points, by preference at the ends and next to the powers of two
  u32s giant(bool scalars_only = true) {
    size_t n = giant_size();
    u32s l, few;
    for (int k = 0; k < 6; k++) few += r.chance(50) ? valid_any() : r.chance(50) ? r.pick(multi) : r.pick(decomposable);
    switch (r.below(8)) {
      case 0: case 1: l.assign(n, U'a'); break;
      case 2: l.assign(n, few[0]); break;
      case 3: for (size_t i = 0; i < n; i++) l += hangul(); break;
      case 4: { auto p = r.pick(pairs); while (l.size() < n) { l += p.first; l += p.second; } break; }
      case 5: { u32s q = valid_source(); if (q.empty()) q = few; bool marks_only = true; for (char32_t c : q) marks_only = marks_only && u.ccc[c]; if (marks_only) q += U'a'; while (l.size() < n) l += q; break; }
      case 6: for (size_t i = 0; i < n; i++) l += r.chance(95) ? (char32_t)('a' + i % 26) : r.pick(few); break;
      default: for (size_t i = 0; i < n; i++) l += r.pick(few);
    }
    l.resize(n);
    size_t k = r.below(5);
    while (k--) {
      static const size_t at[] = {0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072};
      size_t p = r.chance(40) ? at[r.below(12)] : r.chance(50) ? n - 1 - r.below(std::min<size_t>(n, 20)) : r.below(n);
      if (p >= n) continue;
      l[p] = r.chance(40) ? r.pick(marks) : r.chance(50) ? r.pick(few) : r.chance(60) ? any_scalar() : (char32_t)(scalars_only ? 0x61 : r.chance(50) ? 0xd800 + r.below(0x800) : 0x110000 + r.below(0x1000));
    }
    return l;
  }
  u32s to32(const std::string& s) { return u32s(s.begin(), s.end()); }
  std::string random_puny() {
    std::string s;
    size_t n = r.below(12);
    for (size_t i = 0; i < n; i++) s += (char)ascii_ldh();
    if (r.chance(10)) s.insert(r.below(s.size() + 1), "-");
    if (r.chance(6)) s += '-';
    if (r.chance(4)) s.insert(0, "-");
    return s;
  }
  // Punycode with deltas (and weights of digits) that take a decoder's state next to, onto and beyond 2^31
  std::string hostile_puny() {
    static const char digits[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    std::string p;
    if (r.chance(40)) { size_t m = 1 + r.below(r.chance(20) ? 60 : 6); while (m--) p += (char)('a' + r.below(26)); p += '-'; }
    uint64_t len = p.empty() ? 1 : p.size(), n = 128, i = 0;
    int64_t bias = 72;
    size_t steps = 1 + r.below(4);
    bool first = true;
    while (steps--) {
      const uint64_t L = 0x7fffffff;
      uint64_t room = L > i ? L - i : 0, top = n < L ? (L - n) * len : 0, delta = 0;
      bool raw = false;
      switch (r.below(9)) {
        case 0: delta = room - std::min<uint64_t>(room, r.chance(50) ? r.below(4) : r.below(400)); break;   // the last index that fits
        case 1: delta = room + (r.chance(50) ? r.below(4) : r.below(400)); break;
        case 2: delta = (top > i ? top - i : 0) + r.below(600); break;                                        // the last code point that fits
        case 3: delta = (top > i ? top - i : 0) - std::min<uint64_t>(top > i ? top - i : 0, r.below(600)); break;
        case 4: delta = room / 2 + r.below(1000); break;
        case 5: delta = r.next() >> (33 + r.below(31)); break;
        case 6: delta = (0x10ffff - std::min<uint64_t>(n, 0x10ffff)) * len + r.below(2 * len); break;
        default: raw = true;
      }
      auto thr = [&](int64_t kk) { return (uint64_t)(kk <= bias ? 1 : kk >= bias + 26 ? 26 : kk - bias); };
      if (raw) {   // many digits that do not end the number, small as they may be, and an end
        uint64_t w = 1;
        size_t m = 1 + r.below(9);
        int64_t kk = 36;
        for (; m--; kk += 36) { uint64_t tt = thr(kk), d = tt + (r.chance(70) ? 0 : r.below(36 - tt)); p += digits[d]; delta += d * w; w *= 36 - tt; if (w > (1ull << 40)) break; }
        uint64_t d = r.chance(70) ? 0 : r.below(thr(kk + 36));
        p += digits[d]; delta += d * w;
      } else {
        uint64_t q = delta;
        for (int64_t kk = 36;; kk += 36) {
          uint64_t tt = thr(kk);
          if (q < tt) { p += digits[q]; break; }
          p += digits[tt + (q - tt) % (36 - tt)];
          q = (q - tt) / (36 - tt);
        }
      }
      bias = ref::adapt((int64_t)delta, (int64_t)len, first);
      first = false;
      i += delta; n += i / len; i = i % len + 1; len++;
      if (r.chance(2)) p += random_puny();
    }
    return p;
  }
  u32s valid_source() {
    switch (r.below(11)) { case 0: case 1: return label_mixed(); case 2: case 3: return label_script(); case 4: case 5: return label_bidi(); case 6: case 7: return label_join(); case 8: case 9: return label_norm(); default: return label_window(); }
  }
  u32s label_ace() {  // A-labels: of (mostly) valid labels, of invalid ones, damaged ones
    std::string p;
    switch (r.below(6)) {
      case 0: p = r.chance(50) ? random_puny() : hostile_puny(); break;
      default: {
        u32s l = valid_source(), m;
        if (r.chance(80)) { if (ref::map(u, l, m)) l = ref::nfc(u, m); }
        if (l.empty()) l = U"\u00fc";
        ref::puny_encode(l, p);
        for (char& c : p) if (c == '.') c = 'q';
        if (r.chance(15) && !p.empty()) {
          switch (r.below(5)) {
            case 0: p[r.below(p.size())] = (char)ascii_ldh(); break;
            case 1: p.erase(r.below(p.size()), 1); break;
            case 2: p.insert(r.below(p.size() + 1), 1, (char)ascii_ldh()); break;
            case 3: p.insert(0, "-"); break;
            case 4: p[r.below(p.size())] ^= r.chance(50) ? 0x20 : 0x80; break;
          }
        }
      }
    }
    std::string pre = "xn--";
    if (r.chance(4)) pre = "Xn--"; else if (r.chance(2)) pre = "xN--"; else if (r.chance(2)) pre = "xn--xn--"; else if (r.chance(2)) pre = "xn-";
    u32s o;
    for (unsigned char c : pre + p) o += (char32_t)(c);
    if (r.chance(3)) o.insert(r.below(o.size() + 1), 1, r.pick(ignored));
    if (r.chance(3)) o[r.below(o.size())] = 0xff00 + ('a' - 0x20) + r.below(26);  // full-width letter
    return o;
  }
  u32s label() {
    switch (r.below(13)) {
      case 12: return label_window();
      case 0: case 1: case 2: return label_mixed();
      case 3: return label_script();
      case 4: case 5: return label_bidi();
      case 6: return label_join();
      case 7: case 8: return label_norm();
      case 9: case 10: return label_ace();
      default: { u32s l; size_t n = r.below(9); while (n--) l += ascii_any(); return l; }
    }
  }
  u32s domain32() {
    u32s d;
    size_t n = 1 + (r.chance(45) ? r.below(4) : 0);
    for (size_t i = 0; i < n; i++) {
      if (i) d += dot();
      if (r.chance(3)) continue;
      d += label();
    }
    if (r.chance(4)) d += dot();
    return d;
  }
  // Domain as bytes; damage: share (percent) of inputs turned into malformed UTF-8
  std::string domain(unsigned damage = 3) {
    std::string s;
    for (char32_t c : domain32()) ref::utf8_put(s, c);
    if (r.chance(damage)) corrupt_utf8(s);
    return s;
  }
  void corrupt_utf8(std::string& s) {
    switch (r.below(9)) {
      case 0: s.insert(r.below(s.size() + 1), 1, (char)(0x80 + r.below(0x80))); break;
      case 1: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
      case 2: if (!s.empty()) s.resize(r.below(s.size())); break;
      case 3: if (!s.empty()) s[r.below(s.size())] = (char)r.below(256); break;
      case 4: { static const char* bad[] = {"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xfe", "\xed\xa0\x80\xed\xb0\x80"}; s.insert(r.below(s.size() + 1), bad[r.below(14)]); break; }
      case 5: { static const char* cut[] = {"\xc3", "\xe2\x82", "\xe2", "\xf0\x9f\x92", "\xf0\x9f", "\xf0"}; s += cut[r.below(6)]; break; }
      case 6: if (!s.empty()) s[r.below(s.size())] ^= 1 << r.below(8); break;
      case 7: { std::string t; ref::utf8_put(t, 0xd800 + r.below(0x800)); s.insert(r.below(s.size() + 1), t); break; }
      case 8: { std::string t; ref::utf8_put(t, 0x110000 + r.below(0x1000)); s.insert(r.below(s.size() + 1), t); break; }
    }
  }
  // Long domain: total size in bytes near `target`
  // Hundreds of short labels that pass, and now and then one that may not: what stops looking after so many
  std::string many_labels(size_t target) {
    std::vector<std::string> good, last;
    bool ltr = r.chance(60);
    for (int k = 0; k < 60 && good.size() < 3; k++) {
      u32s l, m;
      switch (r.below(4)) { case 0: l = u32s(1 + r.below(3), valid_any()); break; case 1: l = to32(r.chance(50) ? "a" : "x-1"); break; case 2: l = label_ace(); break; default: l = valid_source(); }
      if (l.size() > (l[0] == 'x' ? 14 : 5) || !ref::map(u, l, m) || m.empty()) continue;
      m = ref::nfc(u, m);
      if (m.find(U'.') != u32s::npos || !ref::label_valid(u, m) || (ltr && ref::has_rtl(u, m))) continue;
      good.push_back(ref::utf8(l));
    }
    if (good.empty()) good.push_back("\xc3\xbc");
    std::string s;
    size_t odd = r.chance(80) ? 1 : r.below(4);
    while (odd--) { std::string t; for (char32_t c : r.chance(70) ? label() : label_bidi()) ref::utf8_put(t, c); last.push_back(t); }
    for (auto& t : last) target -= std::min(target, t.size() + 1);
    while (s.size() + 16 < target) { s += r.chance(97) ? good[0] : r.pick(good); s += r.chance(99) ? "." : "\xe3\x80\x82"; }
    for (auto& t : last) {
      size_t at = r.chance(70) ? s.size() : s.find('.', r.below(s.size() + 1));
      at = at == std::string::npos || at == s.size() ? s.size() : at + 1;
      s.insert(at, t + ".");
    }
    if (!s.empty() && r.chance(70)) s.pop_back();
    return s;
  }
  // One label, valid more often than not, far longer than DNS has them, as text or as an A-label
  std::string long_label(size_t target) {
    u32s s, q, m;
    auto piece = [&] {
      for (int k = 0; k < 30; k++) {
        u32s l = r.chance(25) ? u32s(1 + r.below(20), U'a') : r.chance(30) ? label_bidi() : r.chance(20) ? label_join() : valid_source();
        if (ref::map(u, l, m) && !m.empty() && m.find(U'.') == u32s::npos && ref::label_valid(u, m = ref::nfc(u, m))) return l;
      }
      return u32s(U"\u00fc");
    };
    if (r.chance(60)) s = piece();
    q = piece();
    size_t n = 0;
    while (n < target && q.size()) { s += q; n += ref::utf8(q).size(); }
    if (r.chance(60)) s += r.chance(80) ? piece() : label();
    if (r.chance(30)) s.insert(r.below(s.size() + 1), piece());
    if (r.chance(50) && ref::map(u, s, m)) {
      std::string p;
      m = ref::nfc(u, m);
      if (!ref::ascii(m) && ref::puny_encode(m, p).ok) return "xn--" + p;
    }
    std::string o;
    for (char32_t c : s) ref::utf8_put(o, c);
    return o;
  }
  std::string long_domain(size_t target) {
    if (r.chance(40)) return many_labels(target);
    std::string s;
    int style = r.below(4);
    while (s.size() < target) {
      std::string t;
      u32s l = style == 0 ? label() : style == 1 ? label_script() : style == 2 ? label_norm() : u32s(1 + r.below(60), valid_any());
      for (char32_t c : l) ref::utf8_put(t, c);
      if (!s.empty() && r.chance(style == 3 ? 2 : 60)) s += '.';
      if (s.size() + t.size() > target) { s.append(target - s.size(), 'a'); break; }
      s += t;
    }
    return s;
  }
};
