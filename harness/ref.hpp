// Independent reference ("executable model") for the behaviour of ada::idna, over Unicode 17.0 data that
// does not come from the repository (oracle/ucd17.txt). Deliberately naive: separate algorithms, 64-bit
// arithmetic, no shortcuts. It includes no header of the library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

namespace ref {
using u32s = std::u32string;

enum Status : uint8_t { DIS = 0, VAL, IGN, MAP };
enum Bidi : uint8_t { bNONE, bL, bR, bAL, bAN, bEN, bES, bCS, bET, bON, bBN, bNSM, bB, bS, bWS, bX };
inline const char* bidi_name(uint8_t b) {
  static const char* n[] = {"NONE", "L", "R", "AL", "AN", "EN", "ES", "CS", "ET", "ON", "BN", "NSM", "B", "S", "WS", "X"};
  return n[b];
}

// Data deviations of the pinned commit (oracle/stale.txt), switchable per kind.
enum Dev : unsigned {
  DEV_BIDI = 1,      // K1 bidi classes
  DEV_JOIN = 2,      // K2 joining types
  DEV_VIRAMA = 4,    // K3 virama list (repaired)
  DEV_MARK = 8,      // K4 combining marks
  DEV_NORM = 16,     // K5 ccc, decompositions, compositions
  DEV_PERLABEL = 32, // K6 Bidi rule only applied to labels with RTL characters (repaired)
  DEV_ALL = 27
};

struct Ucd {
  std::vector<uint8_t> status, ccc, bidi, jt, flag;  // flag: 1 mark, 2 virama, 4 ids, 8 idc
  std::unordered_map<char32_t, u32s> mapping, dec;
  std::unordered_map<uint64_t, char32_t> pair;
  std::set<char32_t> stale;  // code points the stale overlay touches
  Ucd() : status(0x110000), ccc(0x110000), bidi(0x110000), jt(0x110000), flag(0x110000) {}
  static uint8_t bidi_of(const std::string& s) {
    for (int i = 0; i < 15; i++)
      if (s == bidi_name(i)) return i;
    return bX;
  }
  void load(const std::string& path, bool overlay, unsigned dev) {
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
    std::string line;
    auto hex = [](const std::string& s) { return (char32_t)strtoul(s.c_str(), nullptr, 16); };
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream is(line);
      std::vector<std::string> w;
      std::string t;
      while (is >> t) w.push_back(t);
      char k = w[0][0];
      if (k == 'd') {
        char32_t c = hex(w[1]);
        if (overlay) { stale.insert(c); if (dev & DEV_NORM) dec.erase(c); continue; }
        u32s d;
        for (size_t i = 2; i < w.size(); i++) d.push_back(hex(w[i]));
        dec[c] = d;
        continue;
      }
      if (k == 'p') {
        char32_t a = hex(w[1]), b = hex(w[2]);
        if (overlay) { stale.insert(a); stale.insert(b); if (dev & DEV_NORM) pair.erase((uint64_t)a << 32 | b); continue; }
        pair[(uint64_t)a << 32 | b] = hex(w[3]);
        continue;
      }
      char32_t a = hex(w[1]), b = hex(w[2]);
      for (char32_t c = a; c <= b; c++) {
        if (overlay) stale.insert(c);
        switch (k) {
          case 'S':
            status[c] = w[3] == "V" ? VAL : w[3] == "I" ? IGN : MAP;
            if (status[c] == MAP) {
              u32s m;
              for (size_t i = 4; i < w.size(); i++) m.push_back(hex(w[i]));
              mapping[c] = m;
            }
            break;
          case 'c': if (!overlay || (dev & DEV_NORM)) ccc[c] = atoi(w[3].c_str()); break;
          case 'b': if (!overlay || (dev & DEV_BIDI)) bidi[c] = bidi_of(w[3]); break;
          case 'j': if (!overlay || (dev & DEV_JOIN)) jt[c] = w[3][0] == '-' ? 0 : w[3][0]; break;
          case 'v': if (!overlay) flag[c] |= 2; else if (dev & DEV_VIRAMA) flag[c] &= ~2; break;
          case 'm': if (!overlay) flag[c] |= 1; else if (dev & DEV_MARK) flag[c] &= ~1; break;
          case 's': flag[c] |= 4; break;
          case 't': flag[c] |= 8; break;
        }
      }
    }
  }
  bool mark(char32_t c) const { return flag[c] & 1; }
  bool virama(char32_t c) const { return flag[c] & 2; }
};

// ---- UTF-8 -------------------------------------------------------------------------------------------
// Table 3-7 of the Unicode standard, literally.
inline bool utf8_decode(const std::string& s, u32s& out) {
  out.clear();
  size_t i = 0, n = s.size();
  auto b = [&](size_t k) { return k < n ? (unsigned)(unsigned char)s[k] : 0u; };
  auto in = [](unsigned x, unsigned lo, unsigned hi) { return x >= lo && x <= hi; };
  while (i < n) {
    unsigned x = b(i);
    if (x <= 0x7f) { out.push_back(x); i++; continue; }
    if (in(x, 0xc2, 0xdf)) {
      if (!in(b(i + 1), 0x80, 0xbf)) return false;
      out.push_back((x - 0xc0) * 64 + (b(i + 1) - 0x80)); i += 2; continue;
    }
    if (in(x, 0xe0, 0xef)) {
      unsigned lo = x == 0xe0 ? 0xa0 : 0x80, hi = x == 0xed ? 0x9f : 0xbf;
      if (!in(b(i + 1), lo, hi) || !in(b(i + 2), 0x80, 0xbf)) return false;
      out.push_back((x - 0xe0) * 4096 + (b(i + 1) - 0x80) * 64 + (b(i + 2) - 0x80)); i += 3; continue;
    }
    if (in(x, 0xf0, 0xf4)) {
      unsigned lo = x == 0xf0 ? 0x90 : 0x80, hi = x == 0xf4 ? 0x8f : 0xbf;
      if (!in(b(i + 1), lo, hi) || !in(b(i + 2), 0x80, 0xbf) || !in(b(i + 3), 0x80, 0xbf)) return false;
      out.push_back((x - 0xf0) * 262144 + (b(i + 1) - 0x80) * 4096 + (b(i + 2) - 0x80) * 64 + (b(i + 3) - 0x80)); i += 4; continue;
    }
    return false;
  }
  return true;
}
inline void utf8_put(std::string& o, char32_t c) {  // any value < 0x200000, also surrogates
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xc0 + c / 64); o += (char)(0x80 + c % 64); }
  else if (c < 0x10000) { o += (char)(0xe0 + c / 4096); o += (char)(0x80 + c / 64 % 64); o += (char)(0x80 + c % 64); }
  else { o += (char)(0xf0 + c / 262144); o += (char)(0x80 + c / 4096 % 64); o += (char)(0x80 + c / 64 % 64); o += (char)(0x80 + c % 64); }
}
inline std::string utf8(const u32s& s) { std::string o; for (char32_t c : s) utf8_put(o, c); return o; }
inline bool scalar(char32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
inline bool ascii(const u32s& s) { for (char32_t c : s) if (c > 0x7f) return false; return true; }
inline bool ascii(const std::string& s) { for (unsigned char c : s) if (c > 0x7f) return false; return true; }
inline std::string lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = c - 'A' + 'a'; return s; }
template <class S> std::vector<S> split(const S& s) {
  std::vector<S> r(1);
  for (auto c : s) if (c == '.') r.emplace_back(); else r.back().push_back(c);
  return r;
}

// ---- mapping -----------------------------------------------------------------------------------------
inline bool map(const Ucd& u, const u32s& in, u32s& out) {
  out.clear();
  for (char32_t c : in) {
    if (c > 0x10ffff) return false;
    switch (u.status[c]) {
      case DIS: return false;
      case VAL: out.push_back(c); break;
      case IGN: break;
      case MAP: out += u.mapping.at(c); break;
    }
  }
  return true;
}

// ---- normalization (UAX #15, D-numbers of chapter 3.11/3.12) -------------------------------------------
inline uint8_t ccc(const Ucd& u, char32_t c) { return c <= 0x10ffff ? u.ccc[c] : 0; }
inline u32s nfd(const Ucd& u, const u32s& in) {
  u32s o;
  for (char32_t c : in) {
    if (c >= 0xac00 && c <= 0xd7a3) {
      unsigned s = c - 0xac00;
      o.push_back(0x1100 + s / 588);
      o.push_back(0x1161 + s % 588 / 28);
      if (s % 28) o.push_back(0x11a7 + s % 28);
    } else {
      auto it = u.dec.find(c);
      if (it == u.dec.end()) o.push_back(c); else o += it->second;
    }
  }
  // canonical ordering: stable sort of every maximal run of non-starters
  for (size_t i = 0; i < o.size();) {
    if (!ccc(u, o[i])) { i++; continue; }
    size_t j = i;
    while (j < o.size() && ccc(u, o[j])) j++;
    std::vector<std::pair<unsigned, char32_t>> v;
    for (size_t k = i; k < j; k++) v.push_back({ccc(u, o[k]), o[k]});
    // counting by class keeps it stable and linear
    std::map<unsigned, u32s> by;
    for (auto& p : v) by[p.first].push_back(p.second);
    size_t k = i;
    for (auto& p : by) for (char32_t c : p.second) o[k++] = c;
    i = j;
  }
  return o;
}
inline char32_t primary(const Ucd& u, char32_t a, char32_t b) {
  if (a >= 0x1100 && a <= 0x1112 && b >= 0x1161 && b <= 0x1175) return 0xac00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
  if (a >= 0xac00 && a <= 0xd7a3 && (a - 0xac00) % 28 == 0 && b >= 0x11a8 && b <= 0x11c2) return a + (b - 0x11a7);
  auto it = u.pair.find((uint64_t)a << 32 | b);
  return it == u.pair.end() ? 0 : it->second;
}
inline u32s nfc(const Ucd& u, const u32s& in) {
  u32s d = nfd(u, in), o;
  ptrdiff_t starter = -1;
  for (char32_t c : d) {
    if (starter >= 0) {
      // blocked if anything kept between the starter and c has ccc 0 or >= ccc(c)
      bool adjacent = (size_t)starter + 1 == o.size();
      unsigned last = adjacent ? 0 : ccc(u, o.back());
      bool blocked = !adjacent && (last == 0 || last >= ccc(u, c));
      if (!blocked) {
        char32_t p = primary(u, o[starter], c);
        if (p) { o[starter] = p; continue; }
      }
    }
    if (ccc(u, c) == 0) starter = o.size();
    o.push_back(c);
  }
  return o;
}

// ---- punycode (RFC 3492), 64-bit --------------------------------------------------------------------
struct Puny { bool ok = false; bool big = false; };  // big: an intermediate value left 31 bits
inline int64_t adapt(int64_t delta, int64_t n, bool first) {
  delta = first ? delta / 700 : delta / 2;
  delta += delta / n;
  int64_t k = 0;
  while (delta > 455) { delta /= 35; k += 36; }
  return k + 36 * delta / (delta + 38);
}
inline Puny puny_encode(const u32s& in, std::string& out) {
  Puny r;
  out.clear();
  for (char32_t c : in) if (!scalar(c)) return r;
  for (char32_t c : in) if (c < 0x80) out += (char)c;
  int64_t b = out.size(), h = b, n = 128, delta = 0, bias = 72;
  if (b) out += '-';
  std::vector<char32_t> todo(in.begin(), in.end());
  while (h < (int64_t)in.size()) {
    int64_t m = INT64_MAX;
    for (char32_t c : in) if (c >= n && c < m) m = c;
    delta += (m - n) * (h + 1);
    if (delta > 0x7fffffff) r.big = true;
    n = m;
    for (char32_t c : in) {
      if (c < n) delta++;
      if (delta > 0x7fffffff) r.big = true;
      if (c == n) {
        int64_t q = delta;
        for (int64_t k = 36;; k += 36) {
          int64_t t = k - bias < 1 ? 1 : k - bias > 26 ? 26 : k - bias;
          if (q < t) break;
          int64_t dg = t + (q - t) % (36 - t);
          out += (char)(dg < 26 ? 'a' + dg : '0' + dg - 26);
          q = (q - t) / (36 - t);
        }
        out += (char)(q < 26 ? 'a' + q : '0' + q - 26);
        bias = adapt(delta, h + 1, h == b);
        delta = 0;
        h++;
      }
    }
    delta++; n++;
  }
  r.ok = true;
  return r;
}
// Lower-case digits only, as everywhere in the library. ok=false, big=false: malformed.
// range=true reports a code point that is no scalar value (the decoding goes on).
inline Puny puny_decode(const std::string& in, u32s& out, bool* range = nullptr) {
  Puny r;
  out.clear();
  if (range) *range = false;
  size_t d = in.rfind('-');
  size_t p = 0;
  if (d != std::string::npos && d > 0) {
    for (size_t i = 0; i < d; i++) {
      if ((unsigned char)in[i] >= 0x80) return r;
      out.push_back((unsigned char)in[i]);
    }
    p = d + 1;
  }
  __int128 n = 128, i = 0;
  int64_t bias = 72;
  while (p < in.size()) {
    __int128 oldi = i, w = 1;
    for (int64_t k = 36;; k += 36) {
      if (p >= in.size()) return Puny{};
      char c = in[p++];
      int64_t dg = c >= 'a' && c <= 'z' ? c - 'a' : c >= '0' && c <= '9' ? c - '0' + 26 : -1;
      if (dg < 0) return Puny{};
      i += dg * w;
      if (i > 0x7fffffff) r.big = true;
      int64_t t = k - bias < 1 ? 1 : k - bias > 26 ? 26 : k - bias;
      if (dg < t) break;
      w *= 36 - t;
      if (w > 0x7fffffff) r.big = true;
      if (w > ((__int128)1 << 80) || i > ((__int128)1 << 80)) {
        // far out of range whatever follows, but the digits must still be well-formed
        for (; p < in.size(); p++) {
          char e = in[p];
          if (!((e >= 'a' && e <= 'z') || (e >= '0' && e <= '9'))) return Puny{};
        }
        if (range) *range = true;
        r.big = true; r.ok = false;
        return r;
      }
    }
    __int128 len = out.size() + 1;
    // adapt() over values beyond 64 bits only matters once 'big' is set
    bias = adapt((int64_t)((i - oldi) & INT64_MAX), (int64_t)len, oldi == 0);
    n += i / len;
    if (n > 0x7fffffff) r.big = true;
    i %= len;
    char32_t cp = n > 0x7fffffff ? 0x7fffffff : (char32_t)n;
    if (!scalar(cp) && range) *range = true;
    out.insert((size_t)i, 1, cp);
    i++;
  }
  r.ok = true;
  return r;
}

// ---- label validity ------------------------------------------------------------------------------------
inline bool has_rtl(const Ucd& u, const u32s& l) {
  for (char32_t c : l) if (u.bidi[c] == bR || u.bidi[c] == bAL || u.bidi[c] == bAN) return true;
  return false;
}
// RFC 5893, section 2, rules 1 to 6, for one non-empty label.
inline bool bidi_rule(const Ucd& u, const u32s& l) {
  std::vector<uint8_t> t;
  for (char32_t c : l) t.push_back(u.bidi[c]);
  bool rtl = t[0] == bR || t[0] == bAL, ltr = t[0] == bL;
  if (!rtl && !ltr) return false;                                                       // 1
  size_t e = t.size();
  while (e > 0 && t[e - 1] == bNSM) e--;
  uint8_t last = e ? t[e - 1] : (uint8_t)bNONE;
  bool en = false, an = false;
  for (uint8_t b : t) {
    bool neutral = b == bES || b == bCS || b == bET || b == bON || b == bBN || b == bNSM || b == bEN;
    if (rtl && !(b == bR || b == bAL || b == bAN || neutral)) return false;             // 2
    if (ltr && !(b == bL || neutral)) return false;                                     // 5
    en |= b == bEN; an |= b == bAN;
  }
  if (rtl) return (last == bR || last == bAL || last == bEN || last == bAN) && !(en && an);  // 3, 4
  return last == bL || last == bEN;                                                     // 6
}
inline bool context_j(const Ucd& u, const u32s& l) {
  for (size_t i = 0; i < l.size(); i++) {
    if (l[i] != 0x200c && l[i] != 0x200d) continue;
    if (i && u.virama(l[i - 1])) continue;
    if (l[i] == 0x200d) return false;
    std::string s;  // RFC 5892 A.1 regular expression over joining types, as a scan
    ptrdiff_t a = (ptrdiff_t)i - 1;
    while (a >= 0 && u.jt[l[a]] == 'T') a--;
    size_t b = i + 1;
    while (b < l.size() && u.jt[l[b]] == 'T') b++;
    if (a < 0 || b >= l.size()) return false;
    uint8_t x = u.jt[l[a]], y = u.jt[l[b]];
    if (!((x == 'L' || x == 'D') && (y == 'R' || y == 'D'))) return false;
  }
  return true;
}
// Validity of a label considered on its own: mark, ContextJ, and the Bidi rule if it is RTL.
inline bool label_valid(const Ucd& u, const u32s& l) {
  if (l.empty()) return true;
  if (u.mark(l[0])) return false;
  if (!context_j(u, l)) return false;
  if (has_rtl(u, l) && !bidi_rule(u, l)) return false;
  return true;
}

struct Result {
  bool ok = false;
  std::string out;
  bool lenient = false;  // 31-bit punycode arithmetic: a refusal is acceptable as well
  const char* why = "";
};

// An A-label (what follows xn--), decoded and re-validated. 0 invalid, 1 valid, 2 lenient (overflow)
inline int a_label(const Ucd& u, const std::string& puny, u32s& dec, const char** why) {
  bool range = false;
  Puny p = puny_decode(puny, dec, &range);
  if (!p.ok) { *why = "punycode"; return 0; }
  if (range) { *why = "code point range"; return 0; }
  if (ascii(dec)) { *why = "decodes to ASCII"; return 0; }
  if (dec.size() >= 4 && dec[0] == 'x' && dec[1] == 'n' && dec[2] == '-' && dec[3] == '-') { *why = "double xn--"; return 0; }
  for (char32_t c : dec) if (u.status[c] != VAL || c == '.') { *why = "status"; return 0; }
  if (nfc(u, dec) != dec) { *why = "not NFC"; return 0; }
  if (!label_valid(u, dec)) { *why = "label validity"; return 0; }
  return p.big ? 2 : 1;
}

constexpr size_t kLimit = 16384;

inline Result to_ascii(const Ucd& u, const std::string& in, bool perlabel) {
  Result r;
  if (in.size() > kLimit) { r.why = "too long"; return r; }
  if (ascii(in)) { r.ok = true; r.out = lower(in); return r; }
  u32s w, m;
  if (!utf8_decode(in, w)) { r.why = "utf8"; return r; }
  if (!map(u, w, m)) { r.why = "disallowed"; return r; }
  m = nfc(u, m);
  std::vector<u32s> labels = split(m), decoded = labels;
  for (size_t i = 0; i < labels.size(); i++) {
    const u32s& l = labels[i];
    if (i) r.out += '.';
    if (l.empty()) continue;
    if (l.size() >= 4 && l.substr(0, 4) == U"xn--") {
      if (!ascii(l)) { r.why = "xn-- with non-ASCII"; r.out.clear(); return r; }
      std::string a(l.begin(), l.end());
      int v = a_label(u, a.substr(4), decoded[i], &r.why);
      if (!v) { r.out.clear(); return r; }
      if (v == 2) r.lenient = true;
      r.out += a;
    } else if (ascii(l)) {
      r.out.append(l.begin(), l.end());
    } else {
      if (!label_valid(u, l)) { r.why = "label validity"; r.out.clear(); return r; }
      std::string p;
      Puny q = puny_encode(l, p);
      if (!q.ok) { r.why = "encode"; r.out.clear(); return r; }
      if (q.big) r.lenient = true;
      r.out += "xn--" + p;
    }
  }
  if (!perlabel) {
    bool bidi = false;
    for (auto& l : decoded) bidi |= has_rtl(u, l);
    if (bidi)
      for (auto& l : decoded)
        if (!l.empty() && !bidi_rule(u, l)) { r.why = "Bidi domain"; r.out.clear(); return r; }
  }
  r.ok = true;
  return r;
}

inline Result to_unicode(const Ucd& u, const std::string& in) {
  Result r;
  if (in.size() > kLimit) { r.why = "too long"; return r; }
  r.ok = true;
  std::vector<std::string> ls = split(in);
  for (size_t i = 0; i < ls.size(); i++) {
    if (i) r.out += '.';
    u32s dec;
    const char* why = "";
    if (ls[i].compare(0, 4, "xn--") == 0 && ascii(ls[i])) {
      int v = a_label(u, ls[i].substr(4), dec, &why);
      if (v == 2) r.lenient = true;
      if (v) { r.out += utf8(dec); continue; }
    }
    r.out += ls[i];
  }
  return r;
}
}  // namespace ref
