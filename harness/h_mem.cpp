// C18: every public function on hostile input, in heap buffers of exactly the right size, under the sanitizers (or
// valgrind). Nothing is judged here but that each call comes back, without exception; the sanitizer is the oracle.
#include "common.hpp"
#include "idna.h"
#ifdef SPLIT_TABLES
#include "split_tables.hpp"
#endif
#include <memory>

using ref::u32s;
namespace ai = ada::idna;

struct Exact8 {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact8(const std::string& s) : p(s.empty() ? nullptr : new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
  std::string_view view() const { return {p.get(), n}; }
};
struct Exact32 {
  std::unique_ptr<char32_t[]> p;
  size_t n;
  explicit Exact32(const u32s& s) : p(s.empty() ? nullptr : new char32_t[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n * 4); }
  std::u32string_view view() const { return {p.get(), n}; }
};
static uint64_t sink = 0;
static void eat(const std::string& s) { for (unsigned char c : s) sink = sink * 31 + c; if (sink == 0xfeed) putchar('!'); }   // reads every byte: valgrind sees undefined ones
static void eat(const u32s& s) { for (char32_t c : s) sink = sink * 31 + c; if (sink == 0xfeed) putchar('!'); }
static void eat(uint64_t b) { sink = sink * 31 + b; if (sink == 0xfeed) putchar('!'); }

static void bytes(Ctx& x, const std::string& s) {
  Exact8 e(s);
  std::string_view v = e.view();
  std::string o;
  u32s w;
  eat(ai::to_ascii(v, o)); eat(o);
  eat(ai::to_ascii(v));
  eat(ai::to_unicode(v, o)); eat(o);
  eat(ai::to_unicode(v));
  eat(ai::contains_forbidden_domain_code_point(v));
  if (ai::punycode_to_utf32(v, w)) {
    eat(w);
    eat(ai::is_label_valid(w));
    std::string again;
    eat(ai::utf32_to_punycode(w, again)); eat(again);
    x.count("decoded as punycode");
  }
  eat(ai::verify_punycode(v));
  size_t n = ai::utf32_length_from_utf8(e.p.get(), e.n);
  std::unique_ptr<char32_t[]> out(new char32_t[n]);
  size_t k = ai::utf8_to_utf32(e.p.get(), e.n, out.get());
  if (k > n) x.violation("length", "utf8_to_utf32 reports more than utf32_length_from_utf8");
  else eat(u32s(out.get(), k));
  if (k) x.count("well-formed UTF-8");
  if (ref::ascii(s)) { std::unique_ptr<char[]> q(new char[s.size()]); memcpy(q.get(), s.data(), s.size()); ai::ascii_map(q.get(), s.size()); eat(std::string(q.get(), s.size())); }
}
static void words(Ctx& x, const u32s& s) {
  Exact32 e(s);
  std::u32string_view v = e.view();
  u32s w;
  std::string o;
  if (ai::map(v, w)) x.count("mapped");
  eat(w);
  eat(ai::map(v));
  w = u32s(v);
  w.shrink_to_fit();
  eat(ai::normalize(w)); eat(w);
  eat(ai::is_already_nfc(v));
  eat(ai::is_label_valid(v));
  eat(ai::utf32_to_punycode(v, o));
  o.clear();
  for (char32_t c : s) { eat(ai::valid_name_code_point(c, true)); eat(ai::valid_name_code_point(c, false)); if (s.size() > 500) break; }
  size_t n = ai::utf8_length_from_utf32(e.p.get(), e.n);
  std::unique_ptr<char[]> out(new char[n]);
  size_t k = ai::utf32_to_utf8(e.p.get(), e.n, out.get());
  if (k > n) x.violation("length", "utf32_to_utf8 reports more than utf8_length_from_utf32");
  else eat(std::string(out.get(), k));
}
static void c18(Ctx& x, const Case& c) {
  x.count(c.kind);
  x.nontrivial(c.a);
  try {
    if (c.unit == 4) { u32s s = unpack32(c.a); x.sample(c.kind + ": " + show(s)); words(x, s); }
    else { x.sample(c.kind + ": " + (c.a.size() > 100 ? std::to_string(c.a.size()) + " bytes" : show8(c.a))); bytes(x, c.a); }
  } catch (const std::exception& e) { x.violation("exception", std::string("an exception for an input: ") + e.what()); }
}
static std::unique_ptr<Models> M;
static void generate(Ctx& x) {
  Gen g(M->T, M->K, x.seed * 1000003 + x.shard * 7919 + 18, false);
  Rng& r = g.r;
  auto c8 = [&](const char* k, const std::string& s) { Case c; c.kind = k; c.a = s; x.run(c); };
  auto c32 = [&](const char* k, const u32s& s) { Case c; c.kind = k; c.a = pack32(s); c.unit = 4; x.run(c); };
  if (x.shard == 0) { c8("empty", ""); c32("empty", U""); }
  // every code point value once (in blocks), and the values around every power of two
  for (uint64_t c = x.shard; c < 0x110400; c += x.shards) {
    if (x.scale < 1 && c % 7 != x.seed % 7 && c > 0x3400) continue;
    u32s s(1, (char32_t)c);
    c32("one code point", s);
    if (c < 0x34000 && (c % 5 == x.seed % 5 || x.thorough())) {
      c32("code point in context", s + s); c32("code point in context", U"\u0628\u200c" + s); c32("code point in context", s + U"\u200c"); c32("code point in context", s + U"\u0301\u0323");
      if (ref::scalar((char32_t)c)) { std::string p; ref::puny_encode(s + U"a", p); c8("ACE", "xn--" + p); c8("UTF-8", ref::utf8(U"a" + s)); }
    }
  }
  for (int b = (int)x.shard; b < 32; b += (int)x.shards) for (int d = -3; d <= 3; d++) { char32_t c = (char32_t)((1ull << b) + d); c32("power of two", u32s(1, c)); c32("power of two", u32s(3, c)); c32("power of two", U"a\u0301" + u32s(1, c) + U"\u0301"); }
  // just above the code space: one unit of every block of 256, alone and next to marks
  for (uint64_t c = 0x110000 + 0x80 * x.shard; c < 0x1200000; c += 0x80 * x.shards) { char32_t d = (char32_t)(c + r.below(0x80)); c32("above the code space", U"e\u0301" + u32s(1, d) + U"\u0301\u094d\u200c" + u32s(1, d ^ 0xff)); }
  uint64_t n = x.budget(160000, 6000000);
  for (uint64_t i = 0; i < n; i++) {
    switch (r.below(9)) {
      case 0: { std::string s; size_t k = r.below(r.chance(10) ? 200 : 24); while (k--) s += (char)r.below(256); c8("noise", s); break; }
      case 1: case 2: c8("domain", g.domain(25)); break;
      case 3: { std::string s; size_t k = r.below(60); while (k--) { std::string t; ref::utf8_put(t, g.any_scalar()); s += t; } if (r.chance(50)) g.corrupt_utf8(s); c8("text", s); break; }
      case 4: { u32s s; size_t k = r.below(20); while (k--) s += (char32_t)(r.chance(50) ? r.next() : r.chance(50) ? 0x10fff0 + r.below(64) : r.below(0x110000)); c32("garbage words", s); break; }
      case 5: { u32s s = g.valid_source(); if (r.chance(30)) s.insert(r.below(s.size() + 1), 1, (char32_t)(r.chance(50) ? r.next() : 0xd800 + r.below(0x800))); c32("label", s); break; }
      case 6: { std::string s = r.chance(60) ? g.hostile_puny() : g.random_puny(); while (r.chance(40)) s += g.random_puny(); if (r.chance(20)) s.insert(r.below(s.size() + 1), 1, (char)r.below(256)); c8("punycode", s); c8("punycode", "xn--" + s); break; }
      case 7: { std::string s; for (char32_t c : g.label_ace()) ref::utf8_put(s, c); if (s.size() > 4 && r.chance(50)) s[4 + r.below(s.size() - 4)] = "9z0a-\xff"[r.below(6)]; c8("ACE", r.chance(50) ? s + "." + s : s); break; }
      default: { u32s s; size_t k = r.below(14); while (k--) s += r.chance(40) ? g.hangul() : r.pick(r.chance(50) ? g.marks : g.decomposable); c32("normalization", s); }
    }
  }
  // long input
  uint64_t m = x.budget(320, 4000);
  for (uint64_t i = 0; i < m; i++) {
    static const size_t sizes[] = {255, 256, 1000, 4095, 4096, 4097, 8000, 16376, 16383, 16384, 16385, 20000};
    size_t n2 = sizes[r.below(x.thorough() ? 12 : 9)];
    switch (r.below(6)) {
      case 0: c8("long domain", g.long_domain(n2)); break;
      case 1: c8("long noise", [&] { std::string s(n2, 0); for (char& c : s) c = (char)r.next(); return s; }()); break;
      case 2: { std::string s = "xn--"; while (s.size() < std::min<size_t>(n2, 4000)) s += (char)g.ascii_ldh(); c8("long punycode", s); break; }
      case 3: { u32s s; while (s.size() < std::min<size_t>(n2, 3000)) s += r.chance(80) ? r.pick(g.marks) : g.valid_any(); c32("long marks", s); break; }
      case 4: { u32s s; while (s.size() < n2 / 4) s += g.valid_source(); c32("long text", s); break; }
      default: { u32s s(n2, (char32_t)(r.chance(50) ? 0xfdfa : r.next())); c32("long run", s); }
    }
  }
  // every size of buffer a fixed array could be too small for
  {
    std::vector<size_t> sizes;
    for (size_t k = 0; k < (x.scale < 0.1 ? 70 : 1100); k++) sizes.push_back(k);
    for (size_t b = 128; b <= (x.scale < 0.1 ? 2048 : 131072); b *= 2) for (size_t d : {0, 1, 2, 3, 4, 5, 6}) sizes.push_back(b - 3 + d);
    size_t turn = 0;
    for (size_t k : sizes) {
      if (++turn % x.shards != x.shard) continue;
      auto exact = [&](std::string a, const std::string& b) { if (b.size() <= k) c8("size", std::string(k - b.size(), a[0]) + b); };
      auto exactly = [&](char32_t a, const u32s& b) { if (b.size() <= k) c32("size", u32s(k - b.size(), a) + b); };
      exact("a", ""); exact("a", "-"); exact("a", "-tda"); exact("a", "-99zzz"); exact("a", "\xc3\xbc"); exact("a", "\xc3"); exact(".", "\xc3\xbc"); exact("A", "Z"); exact("a", "-kva4b"); exact("\x80", "");
      if (k >= 5) { c8("size", "xn--" + std::string(k - 5, 'b') + "-"); c8("size", "xn--tda." + std::string(k - 5, 'b')); }
      if (k <= 2100) { exact("9", ""); exact("a", ".xn--tda.\xc3\xbc"); std::string s; while (s.size() < k) s += "\xc3\xbc."; s.resize(k); c8("size", s); s.clear(); while (s.size() < k) s += "\xd7\x90."; s.resize(k); c8("size", s); }
      exactly('a', U""); exactly('a', U"\u00fc"); exactly('A', U"\ufdfa"); exactly('a', U"\U0010ffff"); exactly(0x4e00, U"\u200c"); exactly(0x61, u32s(1, 0xd800));
      if (k <= 2100) { exactly(0xe9, U""); exactly(0xac01, U"\u0323"); exactly(0x301, U"\u0323"); exactly(0xfdfa, U""); exactly(0x10400, U""); exactly(0x5d0, U"\u05b0"); exactly(0x628, U"\u200c\u0628"); }
    }
  }
  // longer than a count of 16 bits (not under valgrind)
  for (uint64_t i = 0, k = x.scale < 0.1 ? 0 : x.budget(24, 800); i < k; i++) {
    u32s s = g.giant(false);
    if (i % 4 == 0) for (char32_t& c : s) if (!ref::scalar(c)) c = 'a';
    if (i & 1) {
      u32s few = {0xfc, 0x4e00};   // many different ones make the punycode decoder's insertions quadratic
      for (char32_t& c : s) if (c >= 0x80 && r.chance(98)) c = i & 2 ? U'a' : few[0];
      c32("giant", s);
    } else {
      for (char32_t& c : s) if (c > 0x10ffff) c = 0xd800;
      std::string t;
      for (char32_t c : s) ref::utf8_put(t, c);
      c8("giant", t);
    }
  }
  x.count("digest", sink ? 1 : 0);
}
int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  Ctx x;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--oracle")) x.oracle = argv[i + 1];
  M = std::make_unique<Models>(x.oracle);
#ifdef SPLIT_TABLES
  if (!split::all()) return 3;
#endif
  x.check = c18;
  auto g = std::make_shared<Gen>(M->T, M->K, x.seed * 77, false);
  x.piece = [g](Rng& r) { g->r = r; u32s p = r.chance(40) ? u32s(1, g->any_scalar()) : r.chance(50) ? g->valid_source() : u32s(1, (char32_t)(r.chance(50) ? g->r.next() : g->r.pick(g->marks))); r = g->r; return p; };
  x.fuzz_mode = [](const std::string& k) { return k == "noise" || k == "punycode" ? 'r' : 't'; };
  return harness_main(argc, argv, x, generate);
}
