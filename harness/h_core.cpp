// C07-C14: the building blocks (punycode, transcoding, mapping, normalization, label validity, identifiers,
// byte classes), each against its own specification.
#include "common.hpp"
#include "idna.h"
#include <memory>

using ref::u32s;
namespace ai = ada::idna;
static std::unique_ptr<Models> M;

static std::string sh(bool ok, const u32s& s) { return ok ? "'" + show(s) + "'" : "failure"; }
static std::string sh8(bool ok, const std::string& s) { return ok ? "'" + show8(s) + "'" : "failure"; }
static bool all_scalar(const u32s& s) { for (char32_t c : s) if (!ref::scalar(c)) return false; return true; }
static bool xn(const u32s& s) { return s.size() >= 4 && s.compare(0, 4, U"xn--") == 0; }

// ---------------------------------------------------------------------------------------------- C07
// enc: c.a is UTF-32, c.n the size of what the output buffer holds already; dec: c.a is the punycode string
static void c07(Ctx& x, const Case& c) {
  if (c.kind == "enc") {
    u32s s = unpack32(c.a);
    std::string want, pre(c.n, 'p'), got = pre;
    auto t = ref::puny_encode(s, want);
    bool ok = ai::utf32_to_punycode(s, got);
    x.count(t.ok ? (t.big ? "encode: beyond 31 bits" : "encode: accepted") : "encode: not scalar values");
    if (!ref::ascii(s)) x.nontrivial("e" + c.a);
    x.sample(show(s) + " -> " + sh8(ok, got));
    if (!ok) {
      if (t.ok && !t.big) x.violation("encode refused", "utf32_to_punycode(" + show(s) + ") failed, expected " + want);
      return;
    }
    if (!t.ok) { x.violation("encode accepted", "utf32_to_punycode(" + show(s) + ") accepted something that is no scalar value"); return; }
    if (got != pre + want) { x.violation("encode", "utf32_to_punycode(" + show(s) + ") = " + show8(got) + ", expected " + pre + want); return; }
    for (unsigned char ch : want) if (ch >= 0x80) x.violation("encode", "non-ASCII output");
    u32s back;
    bool dok = ai::punycode_to_utf32(want, back);
    if (xn(s)) { if (dok) x.violation("double ACE", "punycode_to_utf32(" + want + ") accepted, though it decodes to " + show(back)); return; }
    x.count("round trips");
    if (!dok || back != s) x.violation("round trip", show(s) + " encodes to " + want + ", which decodes to " + sh(dok, back));
    return;
  }
  const std::string& p = c.a;
  u32s want, got;
  bool range = false;
  auto t = ref::puny_decode(p, want, &range);
  bool ok = ai::punycode_to_utf32(p, got);
  x.count(!t.ok ? "decode: malformed" : range ? "decode: beyond Unicode" : t.big ? "decode: beyond 31 bits" : "decode: accepted");
  x.nontrivial("d" + p);
  x.sample(show8(p) + " <- " + sh(ok, got));
  if (range) return;                                        // the caller's mapping step rejects those; either answer will do
  if (t.ok && t.big && !ok) return;                         // RFC 3492 6.4: detecting overflow is up to the implementation
  bool want_ok = t.ok && !xn(want);
  if (ok != want_ok) { x.violation(ok ? "decode accepted" : "decode refused", "punycode_to_utf32(" + show8(p) + ") = " + sh(ok, got) + ", expected " + sh(want_ok, want)); return; }
  if (!ok) return;
  if (got != want) { x.violation("decode", "punycode_to_utf32(" + show8(p) + ") = " + show(got) + ", expected " + show(want)); return; }
  std::string again;
  bool eok = ai::utf32_to_punycode(got, again);
  // nothing but "" and what ends in the delimiter stands for an all-ASCII string
  x.count("re-encoded");
  if (!eok || again != p) x.violation("not injective", show8(p) + " decodes to " + show(got) + ", which encodes to " + sh8(eok, again));
}
// ---------------------------------------------------------------------------------------------- C08
static void c08(Ctx& x, const Case& c) {
  const std::string& p = c.a;
  u32s out;
  bool d = ai::punycode_to_utf32(p, out), v = ai::verify_punycode(p);
  x.count(d ? "decodable" : "not decodable");
  x.nontrivial(p);
  x.sample(show8(p) + (v ? " verified" : " refused"));
  if (d != v) x.violation("verify", "verify_punycode(" + show8(p) + ") is " + (v ? "true" : "false") + " but punycode_to_utf32 " + (d ? "succeeds with " + show(out) : "fails"));
  u32s want;
  bool range;
  auto t = ref::puny_decode(p, want, &range);
  if (range || t.big) return;
  if (v != (t.ok && !xn(want))) x.violation("verify vs RFC 3492", "verify_punycode(" + show8(p) + ") is " + (v ? "true" : "false"));
}
// ---------------------------------------------------------------------------------------------- C09
static void c09(Ctx& x, const Case& c) {
  const size_t G = 8;
  if (c.kind == "8to32") {
    u32s want;
    bool ok = ref::utf8_decode(c.a, want);
    size_t starts = 0;
    for (unsigned char ch : c.a) starts += (ch & 0xc0) != 0x80;
    std::unique_ptr<char[]> in(new char[c.a.size() + c.n]);
    char* p = in.get() + c.n;
    memcpy(p, c.a.data(), c.a.size());
    size_t len = ai::utf32_length_from_utf8(p, c.a.size());
    if (len != starts) x.violation("length", "utf32_length_from_utf8(" + hex(c.a) + ") = " + std::to_string(len) + ", expected " + std::to_string(starts));
    std::vector<char32_t> out(starts + G, 0xdeadbeef);
    size_t n = ai::utf8_to_utf32(p, c.a.size(), out.data());
    for (size_t i = starts; i < starts + G; i++) if (out[i] != 0xdeadbeef) { x.violation("overrun", "utf8_to_utf32(" + hex(c.a) + ") writes past utf32_length_from_utf8 = " + std::to_string(starts)); break; }
    x.count(ok ? "well-formed UTF-8" : "malformed UTF-8");
    x.nontrivial(c.a);
    x.sample(hex(c.a).substr(0, 100) + (ok ? " ok" : " malformed"));
    if (ok ? (n != want.size() || u32s(out.data(), n) != want) : n != 0)
      x.violation(ok ? "decode" : "malformed accepted", "utf8_to_utf32(" + hex(c.a) + ") = " + std::to_string(n) + " code points " + show(u32s(out.data(), std::min(n, starts))) + ", expected " + sh(ok, want));
    return;
  }
  u32s s = unpack32(c.a);
  bool ok = all_scalar(s);
  std::string want = ok ? ref::utf8(s) : "";
  size_t len = ai::utf8_length_from_utf32(s.data(), s.size());
  if (ok && len != want.size()) x.violation("length", "utf8_length_from_utf32(" + show(s) + ") = " + std::to_string(len) + ", expected " + std::to_string(want.size()));
  if (s.size() * 4 < len) x.violation("length", "utf8_length_from_utf32(" + show(s) + ") = " + std::to_string(len));
  std::vector<char> out(s.size() * 4 + G, '\x5a');
  size_t n = ai::utf32_to_utf8(s.data(), s.size(), out.data());
  size_t lim = len;
  for (size_t i = lim; i < out.size(); i++) if (out[i] != '\x5a') { x.violation("overrun", "utf32_to_utf8(" + show(s) + ") writes past utf8_length_from_utf32 = " + std::to_string(len)); break; }
  x.count(ok ? "scalar values" : "not scalar values");
  x.nontrivial(c.a);
  x.sample(show(s) + " -> " + std::to_string(n) + " bytes");
  if (ok ? (n != want.size() || std::string(out.data(), n) != want) : n != 0)
    x.violation(ok ? "encode" : "surrogate accepted", "utf32_to_utf8(" + show(s) + ") = " + std::to_string(n) + " bytes " + hex(std::string(out.data(), std::min(n, lim))));
  if (ok && n == want.size() && ai::utf32_length_from_utf8(out.data(), n) != s.size()) x.violation("length", "utf32_length_from_utf8 of " + hex(want));
}
// ---------------------------------------------------------------------------------------------- C10
static void c10(Ctx& x, const Case& c) {
  u32s s = unpack32(c.a), want, got(c.n % 40, U'q');
  bool ok = ref::map(M->T, s, want);
  bool r = ai::map(s, got);
  u32s v = ai::map(s);
  x.count(ok ? "mapped" : "disallowed");
  for (char32_t ch : s) if (ch < 0x110000) x.count(std::string("code points: ") + (M->T.status[ch] == ref::DIS ? "disallowed" : M->T.status[ch] == ref::VAL ? "valid" : M->T.status[ch] == ref::IGN ? "ignored" : "mapped"));
  x.nontrivial(c.a);
  x.sample(show(s) + " -> " + sh(ok, want));
  if (r != ok || (ok && got != want)) x.violation(ok ? (r ? "mapping" : "disallowed") : "accepted", "map(" + show(s) + ") = " + sh(r, got) + ", expected " + sh(ok, want));
  if (!r && !got.empty()) x.violation("partial output", "map(" + show(s) + ") failed but left " + show(got));
  if (v != (r ? got : u32s())) x.violation("overloads", "map(" + show(s) + ") overloads differ: " + show(v) + " / " + sh(r, got));
}
// ---------------------------------------------------------------------------------------------- C11
static void c11(Ctx& x, const Case& c) {
  u32s s = unpack32(c.a), got = s;
  u32s want = ref::nfc(M->T, s);
  bool was = ai::is_already_nfc(s), r = ai::normalize(got);
  bool is_nfc = want == s;
  x.count(is_nfc ? "already NFC" : "changed by NFC");
  x.nontrivial(c.a);
  x.sample(show(s) + " -> " + show(got));
  if (!r) { x.violation("failed", "normalize(" + show(s) + ") failed"); return; }
  if (got == want && was == is_nfc) {
    u32s again = got;
    if (!ai::normalize(again) || again != got || !ai::is_already_nfc(got)) x.violation("not idempotent", "normalize(normalize(" + show(s) + ")) = " + show(again));
    return;
  }
  u32s k = ref::nfc(M->K, s);
  if (got == k && was == (k == s)) {
    M->attribute(x, [&](const ref::Ucd& u, bool) { u32s q = ref::nfc(u, s); return pack32(q) + (q == s ? "1" : "0"); }, "normalize(" + show(s) + ") = " + show(got) + ", NFC is " + show(want));
    return;
  }
  if (got != want && got != k) x.violation("normalize", "normalize(" + show(s) + ") = " + show(got) + ", NFC is " + show(want));
  else x.violation("is_already_nfc", "is_already_nfc(" + show(s) + ") is " + (was ? "true" : "false") + ", NFC is " + show(want));
}
// ---------------------------------------------------------------------------------------------- C12
static void c12(Ctx& x, const Case& c) {
  u32s s = unpack32(c.a);
  bool t = ref::label_valid(M->T, s), r = ai::is_label_valid(s);
  x.count(t ? "valid" : "invalid");
  if (!t) {
    if (M->T.mark(s[0])) x.count("invalid: leading mark");
    else if (!ref::context_j(M->T, s)) x.count("invalid: ContextJ");
    else x.count("invalid: Bidi rule");
  } else if (ref::has_rtl(M->T, s)) x.count("valid: RTL");
  else for (char32_t ch : s) if (ch == 0x200c || ch == 0x200d) { x.count("valid: joiner"); break; }
  x.nontrivial(c.a);
  x.sample(show(s) + (r ? " valid" : " invalid"));
  if (t == r) return;
  bool k = ref::label_valid(M->K, s);
  if (k == r) {
    M->attribute(x, [&](const ref::Ucd& u, bool) { return std::string(ref::label_valid(u, s) ? "v" : "i"); }, std::string("is_label_valid(") + show(s) + ") is " + (r ? "true" : "false"));
    return;
  }
  x.violation(r ? "accepted" : "rejected", "is_label_valid(" + show(s) + ") is " + (r ? "true" : "false"));
}
// ---------------------------------------------------------------------------------------------- C13
static void c13(Ctx& x, const Case& c) {
  char32_t cp = (char32_t)(c.n >> 1);
  bool first = c.n & 1, want = false;
  if (cp == '$') want = true;
  else if (cp == '_') want = true;
  else if (cp <= 0x10ffff) want = M->T.flag[cp] & (first ? 4 : 8);
  bool got = ai::valid_name_code_point(cp, first);
  x.count(std::string(first ? "start" : "part") + (want ? ": yes" : ": no"));
  char b[64];
  snprintf(b, sizeof b, "valid_name_code_point(%X, %s)", (unsigned)cp, first ? "first" : "not first");
  x.nontrivial(b);
  x.sample(std::string(b) + (got ? " = true" : " = false"));
  if (got != want) x.violation(got ? "accepted" : "refused", std::string(b) + " is " + (got ? "true" : "false"));
}
// ---------------------------------------------------------------------------------------------- C14
static void c14(Ctx& x, const Case& c) {
  if (c.kind == "forbidden") {
    bool want = false;
    for (unsigned char ch : c.a) want |= ch <= 0x20 || ch == 0x7f || ch >= 0x80 || (ch && strchr("#/:<>?@[\\]^|%", ch));
    bool got = ai::contains_forbidden_domain_code_point(c.a);
    x.count(want ? "with a forbidden one" : "without a forbidden one");
    x.nontrivial(c.a);
    if (want != got) x.violation(got ? "alarm" : "missed", "contains_forbidden_domain_code_point(" + hex(c.a) + ") is " + (got ? "true" : "false"));
    return;
  }
  std::string buf(c.a.size() + 32, '\x41');  // surroundings of capital letters: they must stay
  size_t off = 8 + c.n % 8;
  memcpy(&buf[off], c.a.data(), c.a.size());
  std::string want = buf;
  for (size_t i = off; i < off + c.a.size(); i++) if (want[i] >= 'A' && want[i] <= 'Z') want[i] += 32;
  ai::ascii_map(&buf[off], c.a.size());
  x.count("lower-casings");
  x.nontrivial("m" + c.a);
  x.sample(show8(c.a) + " -> " + show8(buf.substr(off, c.a.size())));
  if (buf != want) x.violation("ascii_map", "ascii_map(" + hex(c.a) + ") at offset " + std::to_string(off) + " gives " + hex(buf) + ", expected " + hex(want));
}

// ---------------------------------------------------------------------------------------- generation
static void generate(Ctx& x) {
  const std::string& P = x.prop;
  int pn = atoi(P.c_str() + 1);
  Gen g(M->T, M->K, x.seed * 1000003 + x.shard * 7919 + pn * 131, true);
  Gen gs(M->T, M->K, x.seed * 99991 + x.shard * 104729 + pn, false);
  Rng& r = g.r;
  auto c32 = [](const char* k, const u32s& s, uint64_t n = 0) { Case c; c.kind = k; c.a = pack32(s); c.unit = 4; c.n = n; return c; };
  auto c8 = [](const char* k, const std::string& s, uint64_t n = 0) { Case c; c.kind = k; c.a = s; c.n = n; return c; };
  auto mine = [&](uint64_t i) { return i % x.shards == x.shard; };
  auto giants = [&](uint64_t quick, uint64_t deep) { return x.budget(quick, deep); };

  if (P == "C07" || P == "C08") {
    auto enc = [&](const u32s& s, uint64_t n = 0) { if (P == "C07") x.run(c32("enc", s, n)); else { std::string p; if (ref::puny_encode(s, p).ok) x.run(c8("dec", p)); } };
    auto dec = [&](const std::string& p) { x.run(c8("dec", p)); };
    // every string of up to n digits/delimiters from the alphabet that matters
    const std::string al = "-abyz019AZ.\x80_";
    std::vector<std::string> all = {""};
    for (size_t k = 0, from = 0; k < (x.thorough() ? 6u : 4u); k++) {
      size_t to = all.size();
      for (size_t i = from; i < to; i++) for (char ch : al) all.push_back(all[i] + ch);
      from = to;
    }
    for (size_t i = 0; i < all.size(); i++) if (mine(i)) dec(all[i]);
    for (char32_t c = x.shard; c <= 0x10ffff; c += x.shards) {
      if (!x.thorough() && c > 0x3000 && c % 8 != x.seed % 8 && (c & 0xfff) > 2 && (c & 0xfff) < 0xffd) continue;
      u32s s(1, c);
      enc(s); enc(U"a" + s); enc(s + U"-"); enc(s + s); enc(u32s(1, 0xfc) + s); enc(U"x-y" + s + U"z", 4);
      if (x.thorough()) { enc(s + u32s(1, 0x10ffff)); enc(u32s(1, 0x80) + s + u32s(1, 0x80)); enc(u32s(40, 'a') + s); }
    }
    if (x.shard == 0) for (char32_t c : {0x110000u, 0xd800u, 0xdfffu, 0x7fffffffu, 0x80000000u, 0xffffffffu}) for (size_t k = 0; k < 4; k++) { u32s s = U"ab\u00fc"; s.insert(k, 1, c); if (P == "C07") x.run(c32("enc", s)); }
    // long labels with high code points: the 31-bit limit
    for (size_t i = 0; i < 60; i++) if (mine(i)) {
      u32s s(1 + r.below(3000), r.chance(50) ? U'a' : (char32_t)0xfc);
      size_t k = 1 + r.below(3);
      while (k--) s.insert(r.below(s.size()), 1, r.chance(50) ? (char32_t)0x10ffff : g.any_scalar());
      enc(s);
    }
    for (auto w : {"xn--", "99999999", "a-99999999a", "zzzzzzzzz", "0-9999zzzz", "fa-hia", "-", "--", "a-", "-a", "a--", "---", "9999999999999999999999999999", "a99999999999b", "xn---a", "xn----aa", "xn---epa", "xn--xn---epa"}) if (x.shard == 0) dec(w);
    // deltas that take the decoder's state next to, onto and beyond 2^31
    uint64_t ov = x.budget(500000, 20000000);
    for (uint64_t k = 0; k < ov; k++) { dec(g.hostile_puny()); x.count("next to the 31-bit limit"); }
    uint64_t n = x.budget(P == "C07" ? 700000 : 1200000, 40000000);
    for (uint64_t i = 0; i < n; i++) {
      u32s s = i % 3 ? g.valid_source() : u32s();
      if (i % 3 == 0) { size_t k = r.below(r.chance(10) ? 40 : 8); while (k--) s += r.chance(40) ? g.ascii_any() : g.any_scalar(); }
      if (r.chance(3)) s.insert(0, U"xn--");
      if (r.chance(2) && P == "C07") s.insert(r.below(s.size() + 1), 1, r.chance(50) ? (char32_t)(0xd800 + r.below(0x800)) : (char32_t)(0x110000 + (r.next() & 0xfffff) * (r.chance(50) ? 1 : 4096)));
      std::string p;
      if (i & 1) {
        ref::puny_encode(s, p);
        if (r.chance(60) && !p.empty()) switch (r.below(6)) {
          case 0: p[r.below(p.size())] = (char)g.ascii_ldh(); break;
          case 1: p.erase(r.below(p.size()), 1); break;
          case 2: p.insert(r.below(p.size() + 1), 1, (char)g.ascii_ldh()); break;
          case 3: p.insert(r.below(p.size() + 1), 1, (char)r.below(256)); break;
          case 4: p.insert(0, r.chance(50) ? "-" : "xn--"); break;
          default: p += g.random_puny();
        }
        dec(p);
      } else if (P == "C08" || r.chance(25)) dec(g.random_puny() + (r.chance(10) ? g.random_puny() : ""));
      else enc(s, r.chance(30) ? r.below(40) : 0);
    }
    // every length of a plain run, with something at its end
    for (size_t k = 0; k < 1100; k++) if (mine(k)) {
      x.count("lengths swept");
      u32s pad(k, U'a'), one(1, (char32_t)(r.chance(50) ? 0x80 + r.below(0x700) : g.valid_any()));
      enc(pad + one); enc(one + pad); enc(pad + one + U"b" + one); enc(u32s(1, 0xfc) + pad + one);
      if (k % 4 == 0) { u32s s(k / 2, one[0]); enc(s + U"b" + u32s(1, 0x4e00)); enc(u32s(1, 0x10400) + s); }
      std::string p;
      ref::puny_encode(pad + one, p);
      dec(p.substr(0, p.size() - 1)); dec(std::string(k, 'a') + "-"); dec(std::string(k, 'a')); dec(std::string(k, 'a') + "\x80-a"); dec(p + "A"); dec("xn--" + std::string(k, 'b') + "-"); dec(p + "-");
      std::string q = g.random_puny(); dec(std::string(k, 'a') + "-" + q); dec(std::string(k, '-') + q);
    }
    // text of more than 2^16 code points; few of them non-ASCII, or many of the same, for both directions are quadratic
    for (uint64_t i = 0, m = giants(64, 2000); i < m; i++) {
      size_t k = g.giant_size(), few = 1 + r.below(8);
      u32s s(k, r.chance(85) ? U'a' : (char32_t)(0x80 + r.below(0x2f80)));
      if (r.chance(25)) s.replace(0, 4, r.chance(70) ? U"xn--" : U"xn-");
      while (few--) {
        size_t at = r.chance(50) ? s.size() - std::min<size_t>(s.size(), r.below(12)) : r.chance(60) ? std::min<size_t>(s.size(), (r.chance(70) ? 65530 : 131066) + r.below(12)) : r.below(s.size());
        s.insert(at, 1, r.chance(70) ? (char32_t)(0x80 + r.below(r.chance(50) ? 0x400 : 0x3000)) : r.chance(50) ? g.valid_any() : (char32_t)('a' + r.below(26)));
      }
      x.count("longer than 2^8 to 2^17");
      if (i % 2) enc(s);
      else {
        std::string p;
        if (!ref::puny_encode(s, p).ok) continue;
        if (r.chance(60)) switch (r.below(4)) {
          case 0: p[p.size() - 1 - r.below(std::min<size_t>(p.size(), 12))] = (char)r.below(256); break;
          case 1: p.erase(p.size() - 1 - r.below(std::min<size_t>(p.size(), 12)), 1); break;
          case 2: p[s[0] == 'a' ? r.below(p.size()) : p.size() - 1] = (char)(r.chance(50) ? r.below(256) : g.ascii_ldh()); break;
          default: p += g.random_puny();
        }
        dec(p);
      }
    }
    return;
  }
  if (P == "C09") {
    auto d = [&](const std::string& s, uint64_t off = 0) { x.run(c8("8to32", s, off)); };
    const std::string A(16, 'a');
    for (unsigned a = 0; a < 256; a++) for (unsigned b = 0; b < 256; b++) if (mine(a)) {
      std::string s; s += (char)a; s += (char)b;
      d(s); d(A.substr(0, 15) + s); d(s + A);
      if (a >= 0xc0) for (unsigned c = 0; c < 256; c++) {
        if (!x.thorough() && c % 16 && c % 16 != 15 && c != 0xbe) continue;
        std::string t = s + (char)c;
        d(t);
        if (a >= 0xf0) for (unsigned e : {0u, 0x7fu, 0x80u, 0x81u, 0xbfu, 0xc0u, 0xffu}) d(t + (char)e);
      }
    }
    for (char32_t c = x.shard; c <= 0x110400; c += x.shards) {
      std::string s;
      ref::utf8_put(s, c);
      d(s);
      if (c % 61 == x.seed % 61 || x.thorough()) { d(A.substr(0, c % 17) + s + A.substr(0, c % 13), c % 8); d(s + s.substr(0, s.size() - 1)); }
      x.run(c32("32to8", u32s(1, c)));
      if (c % 61 == x.seed % 61 || x.thorough()) { x.run(c32("32to8", U"ab" + u32s(1, c) + U"c")); x.run(c32("32to8", u32s(1, c) + U"a" + u32s(1, c))); }
    }
    // every position of a non-ASCII unit in a run of n
    for (size_t n = 0; n < 70; n++) if (mine(n)) for (size_t k = 0; k <= n; k++) for (const char* m : {"\xc3\xbc", "\xe4\xb8\x80", "\xf0\x90\x90\x80", "\x80", "\xff", "\xe4\xb8", "\xed\xa0\x80", "\x7f"}) {
      d(std::string(n, 'b').insert(k, m), (n + k) % 8);
      u32s w(n, 'b');
      w.insert(k, 1, m[0] == '\xc3' ? 0xfc : m[0] == '\xe4' ? 0x4e00 : m[0] == '\xf0' ? 0x10400 : m[0] == '\x80' ? 0x80 : m[0] == '\xff' ? 0x110000 : 0xdfff);
      x.run(c32("32to8", w));
    }
    for (size_t k = 0; k < 1100; k++) if (mine(k)) {
      x.count("lengths swept");
      for (const char* m : {"", "\x80", "\xc3", "\xc0\x80", "\xc1\xbf", "\xc2\x80", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe0\xa0\x80", "\xe4\xb8", "\xed\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xef\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x90\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xff"})
        for (size_t tail : {0, 1, 17}) { d(std::string(k, 'a') + m + std::string(tail, 'b'), k % 16); if (tail == 1 && k > 200) { std::string u; while (u.size() < k) u += k % 2 ? "\xc3\xa4" : "\xe4\xb8\x80"; d(u + m + "b"); } }
      for (char32_t c : {0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xd800u, 0xdfffu, 0xe000u, 0xffffu, 0x10000u, 0x10ffffu, 0x110000u, 0xffffffffu})
        for (size_t tail : {0, 1, 17}) { x.run(c32("32to8", u32s(k, U'a') + u32s(1, c) + u32s(tail, U'b'))); if (tail == 1) x.run(c32("32to8", u32s(k, U'\u4e00') + u32s(1, c) + U"b")); }
    }
    uint64_t n = x.budget(1200000, 40000000);
    for (uint64_t i = 0; i < n; i++) {
      u32s s;
      size_t k = r.below(r.chance(20) ? 60 : 10);
      while (k--) { if (r.chance(40)) s += g.ascii_any(); else s += g.any_scalar(); }
      if (i & 1) {
        if (r.chance(8)) s.insert(r.below(s.size() + 1), 1, r.chance(50) ? (char32_t)(0xd800 + r.below(0x800)) : (char32_t)(r.chance(50) ? 0x110000 + r.below(0x100) : (uint32_t)r.next()));
        x.run(c32("32to8", s));
      } else {
        std::string t = ref::utf8(s);
        if (r.chance(60)) g.corrupt_utf8(t);
        d(t, r.below(16));
      }
    }
    for (uint64_t i = 0, m = giants(400, 8000); i < m; i++) {
      u32s s = g.giant(i % 4 != 3);
      x.count("longer than 2^8 to 2^17");
      if (i & 1) x.run(c32("32to8", s));
      else {
        for (char32_t& c : s) if (!ref::scalar(c)) c = 'b';
        std::string t = ref::utf8(s);
        if (r.chance(50)) { size_t at = r.chance(50) ? t.size() - 1 - r.below(std::min<size_t>(t.size(), 20)) : r.below(t.size()); if (r.chance(50)) t[at] = (char)r.below(256); else t.erase(at, 1); }
        d(t, r.below(16));
      }
    }
    return;
  }
  if (P == "C10") {
    for (uint64_t c = x.shard; c <= 0x110400; c += x.shards) {
      u32s s(1, (char32_t)c);
      x.run(c32("cp", s, c));
      if (c < 0x34000 || c % 97 == 0) { x.run(c32("cp", s + s, c)); x.run(c32("cp", U"a" + s + U"B", c)); }
    }
    // neighbours that context-dependent mappings (final sigma, dotted i, emoji sequences, ...) look at
    static const u32s near_by = U"iIjJsSzZ1.- \u00a0\u00ad\u00b7\u00b9\u00df\u0130\u0131\u0149\u017f\u01c5\u02bc\u0307\u0300\u0301\u030c\u0323\u0327\u0345\u034f\u03a3\u03c3\u03c2\u0391\u03b1\u0399\u03b9\u05d0\u0628\u0640\u064b\u094d\u0915\u0e33\u0e4d\u1100\u1161\u11a8\uac00\u1e9e\u1fb3\u200b\u200c\u200d\u2044\u2060\u20e3\u2122\u2260\u3002\u3042\u3099\u309a\u4e00\ufe00\ufe0f\uff0e\uff21\uff76\uff9e\ufdfa\U0001f1e6\U0001f3fb\U0001f468\U0001f600\U000e0061\U000e007f\U000e0100\u0378\ufffd";
    for (uint64_t c = x.shard; c <= 0x323af; c += x.shards) if (ref::scalar((char32_t)c)) {
      u32s s(1, (char32_t)c);
      auto st = M->T.status[(char32_t)c];
      const bool every = st != ref::VAL && st != ref::DIS;
      if (st == ref::DIS && c % 16 != x.seed % 16) continue;
      for (size_t k = every ? 0 : r.below(16); k < near_by.size(); k += every ? 1 : 16) {
        u32s q(1, near_by[k]);
        x.run(c32("pair", s + q)); x.run(c32("pair", q + s));
        if (r.chance(30)) x.run(c32("pair", U"a" + s + q + U"b"));
        if (r.chance(30)) x.run(c32("pair", U"\u03b1" + q + s));
      }
    }
    for (size_t i = x.shard; i < near_by.size(); i += x.shards) for (char32_t j : near_by) for (char32_t k : near_by) x.run(c32("triple", u32s{near_by[i], j, k}));
    if (x.shard == 0) for (char32_t c : {0x200000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0xffff0041u, 0x1000041u}) { x.run(c32("cp", u32s(1, c))); x.run(c32("cp", U"a" + u32s(1, c))); }
    uint64_t n = x.budget(1500000, 40000000);
    for (uint64_t i = 0; i < n; i++) {
      u32s s;
      size_t k = r.below(r.chance(5) ? 200 : 9);
      while (k--) {
        switch (r.below(8)) {
          case 0: case 1: s += r.pick(g.mapped); break;
          case 2: s += r.pick(g.multi); break;
          case 3: s += r.pick(g.ignored); break;
          case 4: s += g.ascii_any(); break;
          case 5: if (r.chance(15)) s += r.chance(70) ? r.pick(g.disallowed) : g.any_scalar(); else s += r.pick(g.valid); break;
          default: s += g.valid_any();
        }
      }
      x.run(c32("seq", s, r.next()));
    }
    for (size_t k = 0; k < 1100; k++) if (mine(k)) {
      x.count("lengths swept");
      for (char32_t pad : {U'a', U'A', U'\u00e4', U'\ufdfa', U'\u00ad'}) {
        if ((pad == U'\ufdfa' || pad == U'\u00ad') && k % 4 != x.seed % 4) continue;
        for (const auto* v : {&g.mapped, &g.multi, &g.ignored, &g.disallowed, &g.valid}) { u32s s(k, pad); s += r.pick(*v); x.run(c32("length", s)); if (r.chance(40)) { s += U"Bb"; x.run(c32("length", s)); } if (r.chance(20)) { s.insert(0, 1, r.pick(*v)); x.run(c32("length", s)); } }
      }
    }
    for (uint64_t i = 0, m = giants(200, 6000); i < m; i++) {
      u32s s = g.giant();
      if (i % 4) for (char32_t& c : s) if (M->T.status[c] == ref::DIS) c = r.pick(g.mapped);
      if (i % 8 == 1) s.back() = r.pick(g.disallowed);
      x.count("longer than 2^8 to 2^17");
      x.run(c32("seq", s, r.next()));
    }
    return;
  }
  if (P == "C11") {
    if (x.shard == 0) for (u32s s : {u32s(U"\U000105d2\u0307"), u32s(U"a\u0323\u0897\u0301"), u32s(U"\u0301\u0897\u0323")}) x.run(c32("witness", s));
    for (char32_t c = x.shard; c <= 0x10ffff; c += x.shards) {
      if (!ref::scalar(c)) continue;
      u32s s(1, c);
      x.run(c32("cp", s));
      if (c >= 0x34000 && c % 97 && (c < 0xe0000 || c > 0xe0200)) continue;
      for (const u32s& t : {s + U"\u0301", U"e" + s, U"e\u0301" + s, U"\u00e9" + s, s + U"\u0338", s + U"\u0323\u0301", s + U"\u0301\u0323", U"a\u0323" + s, s + s, U"\u1100" + s, s + U"\u1161", U"\uac00" + s, U"\uac01" + s, s + U"\u11a8", s + U"\u3099", s + U"\u09be", U"\u0301" + s, s + U"\u0345\u0300", s + U"\u05b0"}) x.run(c32("context", t));
      auto it = M->T.dec.find(c);
      if (it != M->T.dec.end()) {
        u32s d = it->second;
        x.run(c32("decomposition", d)); x.run(c32("decomposition", d + U"\u0323")); x.run(c32("decomposition", U"b" + d + d + U"a"));
        for (size_t k = 0; k <= d.size(); k++) for (char32_t m : {0x0301, 0x0323, 0x0327, 0x0345, 0x05b0, 0x3099, 0x0338, 0x61}) { u32s t = d; t.insert(k, 1, m); x.run(c32("interleaved", t)); u32s v = u32s(1, c); v += m; x.run(c32("interleaved", v)); }
      }
    }
    size_t i = 0;
    for (auto& p : M->T.pair) if (mine(i++)) {
      u32s s{(char32_t)(p.first >> 32), (char32_t)p.first};
      x.run(c32("pair", s));
      for (char32_t m : {0x0301, 0x0323, 0x0334, 0x0338, 0x05b0, 0x0345, 0x61}) { u32s t = s; t.insert(1, 1, m); x.run(c32("pair", t)); x.run(c32("pair", s + u32s(1, m))); }
    }
    if (x.thorough()) for (size_t a = 0; a < g.marks.size(); a++) if (mine(a)) for (char32_t b : g.marks) { u32s s{U'o', g.marks[a], b}; x.run(c32("marks", s)); }
    for (char32_t l : g.hl) for (char32_t v : g.hv) if (mine(l + v)) { x.run(c32("hangul", u32s{l, v})); for (char32_t t = 0x11a6; t <= 0x11c4; t++) x.run(c32("hangul", u32s{l, v, t})); }
    for (char32_t c = 0xac00 + x.shard; c <= 0xd7a3; c += x.shards) for (char32_t t : {0x11a7, 0x11a8, 0x11c2, 0x11c3, 0x1161, 0x1100}) x.run(c32("hangul", u32s{c, t}));
    uint64_t n = x.budget(1300000, 40000000);
    for (uint64_t k = 0; k < n; k++) {
      Gen& q = k % 12 == 11 ? gs : g;
      u32s s = k % 4 == 3 ? q.valid_source() : k % 8 == 1 ? q.label_window() : q.label_norm();
      if (r.chance(1) && r.chance(10)) { size_t m = 50 + r.below(400); s = U"a"; while (m--) s += r.pick(g.marks); }
      x.run(c32("random", s));
    }
    // every length of a run of marks over which another mark has to move, or to compose, and of text before a decomposition
    std::vector<std::pair<char32_t, char32_t>> pairs;
    for (auto& q : M->T.pair) if (M->T.ccc[(char32_t)q.first] > 1) pairs.push_back({(char32_t)(q.first >> 32), (char32_t)q.first});
    std::vector<std::vector<char32_t>> of(256);
    for (char32_t m : g.marks) of[M->T.ccc[m]].push_back(m);
    auto of_class = [&](int lo, int hi) { for (;;) { int c = lo + (int)r.below((uint64_t)(hi - lo)); if (!of[c].empty()) return r.pick(of[c]); } };
    for (size_t k = 0; k < 1300; k++) if (mine(k)) {
      size_t n = k < 1100 ? k : 1100 + r.below(3000);
      x.count("lengths swept");
      for (int v = 0; v < 4; v++) {
        auto [a, b] = r.pick(pairs);
        int c = M->T.ccc[b];
        u32s low(n, of_class(1, c)), same(n, r.pick(of[c])), high(n, of_class(c, 241));
        for (const u32s& s : {u32s(1, a) + low + u32s(1, b), u32s(1, a) + same + u32s(1, b), u32s(1, a) + high + u32s(1, b), u32s(n, a) + u32s(1, b) + U"a", u32s(n, U'a') + u32s(1, a) + u32s(1, b), u32s(1, a) + u32s(1, b) + low + u32s(1, b)}) x.run(c32("length", s));
      }
      u32s s(n, r.chance(50) ? U'k' : U'\u00e9');
      x.run(c32("length", s + u32s(1, r.pick(g.decomposable)))); x.run(c32("length", s + U"\u1100\u1161\u11a8")); x.run(c32("length", s + U"\uac00\u11a8")); x.run(c32("length", s + U"\u0323\u0301"));
      if (n < 700) { u32s m; for (size_t j = 0; j < n; j++) m += r.pick(g.marks); x.run(c32("length", U"a" + m)); }
    }
    for (uint64_t i = 0, m = giants(160, 5000); i < m; i++) {
      x.count("longer than 2^8 to 2^17");
      x.run(c32("giant", g.giant()));
    }
    return;
  }
  if (P == "C12") {
    auto run = [&](const char* k, const u32s& s) {
      u32s m;
      for (char32_t ch : s) if (M->T.status[ch] != ref::VAL) return;
      if (s.empty()) { if (!ai::is_label_valid(s)) x.violation("empty label", "is_label_valid of the empty label is false"); return; }
      if (ref::nfc(M->T, s) != s) { x.count("not NFC, skipped"); return; }
      x.run(c32(k, s));
    };
    if (x.shard == 0) for (u32s s : {u32s(U"\u061d"), u32s(U"\u0628\u200c\u0767"), u32s(U"\u1703\u1715\u200d"), u32s(U"\u0897a"), u32s(U"\u1acfa"), u32s(U"\u0635\u061d")}) run("witness", s);
    if (x.shard == 0) { run("empty", U""); }
    const u32s R(1, 0x5d0), ALEF(1, 0x627), BEH(1, 0x628), NSM(1, 0x5b0), N(1, 0x200c), J(1, 0x200d), AN(1, 0x660), VIR(1, 0x94d), REH(1, 0x631), TR(1, 0x64b);
    for (char32_t c = 0x21 + x.shard; c < 0x34000; c += x.shards) {
      u32s s(1, c);
      for (const u32s& t : {s, U"a" + s, s + U"a", R + s, s + R, R + s + R, R + s + U"1", R + s + AN, R + s + NSM, R + NSM + s, s + NSM, U"a" + s + R, U"a" + s + NSM, AN + s, s + AN + R, U"1" + s + R, s + J, s + N, U"a" + s + J, BEH + N + s, s + N + BEH, BEH + N + s + BEH, BEH + s + N + BEH, BEH + TR + s + N + TR + TR + ALEF, s + N + ALEF, BEH + N + TR + s, ALEF + N + s, s + VIR + J, s + VIR + N + s, VIR + s + J, BEH + N + BEH + N + s, BEH + N + BEH + s + J})
        run("cp", t);
    }
    uint64_t n = x.budget(2500000, 60000000);
    for (uint64_t k = 0; k < n; k++) {
      Gen& q = k % 12 == 11 ? gs : g;
      u32s s, m;
      switch (k % 5) { case 0: case 1: s = q.label_bidi(); break; case 2: s = q.label_join(); break; case 3: s = q.label_script(); break; default: s = q.valid_source(); }
      if (!ref::map(M->T, s, m)) continue;
      s = ref::nfc(M->T, m);
      if (k % 8 && !s.empty() && M->T.mark(s[0])) s.insert(0, 1, r.chance(50) ? (char32_t)('a' + r.below(26)) : r.pick(g.valid_bidi[r.chance(50) ? ref::bR : ref::bAL]));
      if (s.find(U'.') != u32s::npos) continue;
      run("random", s);
    }
    for (size_t k = 0; k < 1100; k++) if (mine(k)) {
      x.count("lengths swept");
      static const char32_t fill[] = {U'a', U'1', U'-', 0x5d0, 0x627, 0x628, 0x660, 0x5b0, 0x4e00};
      static const u32s ends[] = {U"", U"1", U"\u0660", U"\u05d0", U"a", U"-", U"\u200c", U"\u200d", U"\u094d\u200d", U"\u200c\u0628", U"\u0628\u200c\u0627", U"\u0628\u200c\u0628\u05b0", U"\u05b0", U"\u0301", U"-\u05b0", U"1\u0660", U"$", U"\u20ac1"};
      for (char32_t f : fill) for (const u32s& e : ends) {
        if ((k * 7 + f + e.size()) % 3 != x.seed % 3 && (k & (k + 1)) && (k & (k - 1))) continue;
        u32s s(k, f);
        run("length", s + e);
        run("length", u32s(1, fill[r.below(6)]) + s + e);
        if (r.chance(30)) run("length", ends[r.below(18)] + s + e);
      }
    }
    // runs of transparent characters on both sides of a joiner, and of marks before the end
    for (uint64_t i = 0, m = x.budget(120000, 3000000); i < m; i++) {
      auto len = [&] { return r.chance(40) ? r.below(12) : r.chance(60) ? r.below(70) : r.chance(70) ? 240 + r.below(40) : 500 + r.below(600); };
      auto ts = [&] { u32s t; size_t n = len(); char32_t m = r.pick(g.valid_bidi[ref::bNSM]); while (n--) { if (r.chance(5)) m = r.pick(g.valid_bidi[ref::bNSM]); t += m; } return t; };
      auto any = [&](std::initializer_list<int> js) { auto& v = g.join[*(js.begin() + r.below(js.size()))]; return r.chance(85) && !v.empty() ? r.pick(v) : r.pick(g.valid); };
      u32s s;
      if (r.chance(80)) s += any({0, 1, 1});
      s += ts();
      if (r.chance(15)) s += r.pick(g.virama);
      if (r.chance(85)) s += r.chance(85) ? U'\u200c' : U'\u200d';
      s += ts();
      if (r.chance(85)) s += any({1, 3});
      if (r.chance(30)) s += ts();
      bool valid = true;
      for (char32_t c : s) valid = valid && M->T.status[c] == ref::VAL;
      if (!valid) continue;
      s = ref::nfc(M->T, s);
      if (s.size() > 30) x.count("long runs of transparent characters");
      run("run", s);
    }
    for (uint64_t i = 0, m = giants(160, 5000); i < m; i++) {
      auto piece = [&](bool want) {   // a valid label, or just any that comes out of mapping and normalization
        u32s s, m;
        for (int k = 0; k < 40; k++) {
          switch (r.below(4)) { case 0: case 1: s = g.label_bidi(); break; case 2: s = g.label_join(); break; default: s = g.valid_source(); }
          if (!ref::map(M->T, s, m) || m.empty()) continue;
          m = ref::nfc(M->T, m);
          if (m.find(U'.') == u32s::npos && (!want || ref::label_valid(M->T, m))) return m;
        }
        return u32s(U"b");
      };
      size_t n = g.giant_size();
      u32s s, q = r.chance(30) ? u32s(1, r.pick(r.chance(50) ? g.marks : g.valid_bidi[ref::bR])) : piece(true);
      for (char32_t& c : q) if (M->T.status[c] != ref::VAL) c = 0x5d0;
      if (r.chance(50)) s = piece(true);
      u32s tail = piece(r.chance(30)), one;
      while (s.size() + tail.size() + q.size() < n) s += q;
      if (r.chance(60)) s += tail; else s.insert(r.below(s.size() + 1), tail);
      if (r.chance(25)) s.insert(s.size() - std::min<size_t>(s.size(), r.below(6)), 1, r.chance(50) ? (char32_t)0x200d : (char32_t)0x200c);
      s = ref::nfc(M->T, s);
      if (M->T.mark(s[0]) && r.chance(80)) s.insert(0, 1, r.chance(50) ? U'a' : r.pick(g.valid_bidi[ref::bR]));
      x.count("longer than 2^8 to 2^17");
      run("giant", s);
    }
    return;
  }
  if (P == "C13") {
    for (uint64_t c = x.shard; c <= 0x120000; c += x.shards) for (int f = 0; f < 2; f++) { Case k; k.kind = "cp"; k.unit = 0; k.n = c << 1 | f; x.run(k); }
    for (uint64_t i = 0; i < x.budget(100000, 1000000); i++) { Case k; k.kind = "cp"; k.unit = 0; k.n = (r.next() & 0xffffffff) << 1 | (i & 1); if (i % 4 == 0) k.n = ((uint64_t)(r.below(0x110000) + (r.next() & 0xffull) * 0x1000000) & 0xffffffff) << 1 | (i & 2) / 2; x.run(k); }
    // walks in which neighbours, ends of ranges and the two positions follow one another in every order
    std::vector<uint32_t> edge;
    for (uint32_t c = 1; c <= 0x10ffff; c++) if ((M->T.flag[c] ^ M->T.flag[c - 1]) & 12) { edge.push_back(c - 1); edge.push_back(c); }
    uint32_t at = 0x41;
    for (uint64_t i = 0; i < x.budget(4000000, 60000000); i++) {
      switch (r.below(6)) {
        case 0: at = edge[r.below(edge.size())]; break;
        case 1: at += r.below(40); break;
        case 2: at -= r.below(40); break;
        case 3: if (r.chance(3)) at = (uint32_t)(r.chance(50) ? r.next() : r.below(0x110000)); break;
        default: break;
      }
      Case k; k.kind = "walk"; k.unit = 0; k.n = (uint64_t)at << 1 | r.below(2);
      x.run(k);
    }
    return;
  }
  if (P == "C14") {
    for (unsigned a = 0; a < 256; a++) if (mine(a)) {
      x.run(c8("forbidden", std::string(1, (char)a)));
      for (size_t n = 0; n < 70; n++) for (size_t k : {(size_t)0, n / 2, n}) { std::string s(n, 'a'); s.insert(k, 1, (char)a); x.run(c8("forbidden", s)); }
    }
    if (x.shard == 0) x.run(c8("forbidden", ""));
    for (size_t n = 0; n < 70; n++) if (mine(n)) for (unsigned a = 0; a < 128; a++) for (size_t k = 0; k <= n; k += (n > 24 && !x.thorough()) ? 5 : 1) { std::string s(n, "Z[@`{A\x7fz"[(n + k) % 8]); s.insert(k, 1, (char)a); x.run(c8("lower", s, n + k)); }
    uint64_t n = x.budget(800000, 20000000);
    for (uint64_t i = 0; i < n; i++) {
      std::string s;
      size_t k = r.below(r.chance(5) ? 300 : 40);
      while (k--) s += (char)(i & 1 ? (r.chance(4) ? r.below(256) : g.ascii_ldh()) : r.below(128));
      x.run(c8(i & 1 ? "forbidden" : "lower", s, r.below(8)));
    }
    for (size_t n = 1; n < 1100; n++) if (mine(n)) {
      x.count("lengths swept");
      for (size_t k : {(size_t)0, n / 2, n - 1, (size_t)r.below(n), n > 9 ? n - 9 : 0}) {
        std::string s(n, 'a'); s[k] = (char)(r.chance(50) ? r.below(256) : " #/:<>?@[\\]^|%\x7f"[r.below(15)]); x.run(c8("forbidden", s));
        std::string l(n, "Z[@`{A\x7fz"[(n + k) % 8]); l[k] = (char)r.below(128); x.run(c8("lower", l, n % 8));
      }
    }
    for (uint64_t i = 0, m = giants(400, 6000); i < m; i++) {
      std::string s(g.giant_size(), 'k');
      for (char& ch : s) ch = (char)(i & 1 ? "abcxyz019.-_"[r.below(12)] : r.below(128));
      if (r.chance(70)) s[r.chance(50) ? s.size() - 1 - r.below(std::min<size_t>(s.size(), 40)) : r.below(s.size())] = (char)(i & 1 ? r.below(256) : 'Z');
      x.count("longer than 2^8 to 2^17");
      x.run(c8(i & 1 ? "forbidden" : "lower", s, r.below(8)));
    }
    return;
  }
}

int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  Ctx x;
  for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--prop")) x.prop = argv[i + 1]; if (!strcmp(argv[i], "--oracle")) x.oracle = argv[i + 1]; }
  M = std::make_unique<Models>(x.oracle);
  const std::string& P = x.prop;
  x.check = P == "C07" ? c07 : P == "C08" ? c08 : P == "C09" ? c09 : P == "C10" ? c10 : P == "C11" ? c11 : P == "C12" ? c12 : P == "C13" ? c13 : c14;
  // is_already_nfc and others want the tables loaded first
  { std::u32string s = U"\u00fc"; (void)ai::normalize(s); }
  x.variant_percent = 20;
  x.variant_ok = [&x](const Case& c) {
    if (c.a.size() >= 30000) return false;   // quadratic once the order is lost
    if (c.kind == "lower") return ref::ascii(c.a);
    if (x.prop != "C11" && x.prop != "C12") return true;
    u32s s = unpack32(c.a);
    if (!all_scalar(s)) return false;
    if (x.prop == "C11") return true;
    for (char32_t ch : s) if (M->T.status[ch] != ref::VAL) return false;
    return s.find(U'.') == u32s::npos && ref::nfc(M->T, s) == s;
  };
  auto g = std::make_shared<Gen>(M->T, M->K, x.seed * 77, true);
  x.piece = [g](Rng& r) { g->r = r; u32s p = r.chance(50) ? u32s(1, g->valid_any()) : r.chance(50) ? g->valid_source() : u32s(1, r.chance(30) ? g->any_scalar() : r.chance(50) ? g->r.pick(g->mapped) : g->r.pick(g->marks)); r = g->r; return p; };
  x.fuzz_mode = [P](const std::string& k) { return k == "dec" ? 'p' : k == "8to32" ? 't' : 'r'; };
  x.fuzz_fix = [&x](Case& c) {
    if (x.prop == "C09" && c.kind == "8to32") c.n %= 16;
    if (c.kind == "lower") for (char& ch : c.a) ch &= 0x7f;
    if (c.unit != 4) return true;
    u32s s = unpack32(c.a), m, o;
    bool strict = x.prop == "C11" || x.prop == "C12";
    if (strict || c.n % 8) for (char32_t& ch : s) { if (ch >= 0x110000) ch %= 0x110000; if (!ref::scalar(ch)) ch = 0xe0 + ch % 0x800; }
    if (x.prop == "C12") {   // labels as they come out of mapping and normalization
      for (char32_t ch : s) if (M->T.status[ch] != ref::DIS) m += ch;
      s.clear();
      ref::map(M->T, m, s);
      for (char32_t ch : s) if (ch != '.' && M->T.status[ch] == ref::VAL) o += ch;
      s = ref::nfc(M->T, o);
      if (s.empty() || s.find(U'.') != u32s::npos) return false;
      for (char32_t ch : s) if (M->T.status[ch] != ref::VAL) return false;
    }
    c.a = pack32(s);
    return true;
  };
  return harness_main(argc, argv, x, generate);
}
