// C01-C06, C20: whole-domain behaviour of to_ascii / to_unicode.
#include "common.hpp"
#include "idna.h"
#include <chrono>
#include <memory>
#include <sys/mman.h>

using ref::u32s;
namespace ai = ada::idna;
static std::unique_ptr<Models> M;

struct Impl { bool ok; std::string out; };
static Impl impl_ascii(const std::string& d) { Impl r; r.ok = ai::to_ascii(std::string_view(d), r.out); return r; }
static Impl impl_unicode(const std::string& d) { Impl r; r.ok = ai::to_unicode(std::string_view(d), r.out); return r; }
static std::string enc(bool ok, const std::string& s) { return ok ? "ok:" + s : "fail"; }
static std::string sh(bool ok, const std::string& s) { return ok ? "'" + show8(s) + "'" : "failure"; }

// ---------------------------------------------------------------------------------------------- C01
static void c01(Ctx& x, const Case& c) {
  const std::string& d = c.a;
  auto t = ref::to_ascii(M->T, d, false);
  Impl r = impl_ascii(d);
  if (c.kind == "wpt") {  // expectation that comes with the corpus (failure also where the URL Standard's caller fails)
    std::string w = c.b == "-" ? "" : unhex(c.b);
    bool want = !w.empty();  // a domain that maps to nothing is a failure to the corpus, "" to this library
    bool got = r.ok && !r.out.empty() && !ai::contains_forbidden_domain_code_point(r.out);
    x.count("wpt_vectors");
    if (got != want || (want && r.out != w)) x.violation("wpt", "to_ascii(" + show8(d) + ") = " + sh(got, r.out) + ", the WPT corpus says " + sh(want, w));
  }
  bool in_ascii = ref::ascii(d);
  if (!in_ascii && strcmp(t.why, "utf8")) x.nontrivial(d);
  x.count(in_ascii ? "ascii_inputs" : t.ok ? "accepted" : std::string("rejected: ") + t.why);
  x.sample(show8(d) + " -> " + sh(r.ok, r.out));
  if (r.ok == t.ok && r.out == t.out) return;
  if (t.lenient && !r.ok) { x.count("refused for punycode overflow"); return; }
  auto k = ref::to_ascii(M->K, d, false);
  if (r.ok == k.ok && r.out == k.out) {
    M->attribute(x, [&](const ref::Ucd& u, bool pl) { auto q = ref::to_ascii(u, d, pl); return enc(q.ok, q.out); },
                 "to_ascii(" + show8(d) + ") = " + sh(r.ok, r.out) + ", expected " + sh(t.ok, t.out));
    return;
  }
  if (k.lenient && !r.ok) { x.count("refused for punycode overflow"); return; }
  x.violation(r.ok ? (t.ok ? "wrong output" : "wrongly accepted") : "wrongly rejected",
              "to_ascii(" + show8(d) + ") = " + sh(r.ok, r.out) + ", expected " + sh(t.ok, t.out) + (t.ok ? "" : std::string(" (") + t.why + ")"));
}
// ---------------------------------------------------------------------------------------------- C02
static void c02(Ctx& x, const Case& c) {
  const std::string& d = c.a;
  auto t = ref::to_unicode(M->T, d);
  Impl r = impl_unicode(d);
  if (t.out != d) { x.nontrivial(d); x.count("decoded"); } else x.count("kept");
  x.sample(show8(d) + " -> " + sh(r.ok, r.out));
  if (r.ok == t.ok && r.out == t.out) return;
  auto k = ref::to_unicode(M->K, d);
  if (r.ok == k.ok && r.out == k.out) {
    M->attribute(x, [&](const ref::Ucd& u, bool) { auto q = ref::to_unicode(u, d); return enc(q.ok, q.out); },
                 "to_unicode(" + show8(d) + ") = " + sh(r.ok, r.out) + ", expected " + sh(t.ok, t.out));
    return;
  }
  if (t.lenient) { x.count("31-bit overflow"); return; }
  x.violation(r.ok == t.ok ? "wrong output" : "wrong status", "to_unicode(" + show8(d) + ") = " + sh(r.ok, r.out) + ", expected " + sh(t.ok, t.out));
}
// ---------------------------------------------------------------------------------------------- C03
// What an accepted non-ASCII domain turns into, judged from the output alone.
static void c03(Ctx& x, const Case& c) {
  const std::string& d = c.a;
  Impl r = impl_ascii(d);
  if (!r.ok) { x.count("rejected"); return; }
  if (ref::ascii(d)) {
    x.count("ascii");
    if (r.out.size() != d.size()) x.violation("ascii length", "to_ascii(" + show8(d) + ") = " + show8(r.out));
    for (char ch : r.out) if (ch >= 'A' && ch <= 'Z') { x.violation("uppercase", "to_ascii(" + show8(d) + ") = " + show8(r.out)); break; }
    return;
  }
  x.nontrivial(d);
  x.count("accepted");
  for (unsigned char ch : r.out) {
    if (ch >= 0x80) { x.violation("non-ASCII output", "to_ascii(" + show8(d) + ") = " + show8(r.out)); return; }
    if (ch >= 'A' && ch <= 'Z') { x.violation("uppercase", "to_ascii(" + show8(d) + ") = " + show8(r.out)); return; }
  }
  for (auto& l : ref::split(r.out)) {
    if (l.compare(0, 4, "xn--") != 0) { x.count("ascii labels"); continue; }
    x.count("A-labels");
    u32s dec;
    const char* why = "";
    int v = ref::a_label(M->T, l.substr(4), dec, &why);
    if (v) {
      std::string back;
      auto p = ref::puny_encode(dec, back);
      if (!p.ok || "xn--" + back != l) x.violation("not canonical", "to_ascii(" + show8(d) + ") has label " + l + ", whose code points encode to xn--" + back);
      continue;
    }
    const char* why2 = "";
    u32s d2;
    if (ref::a_label(M->K, l.substr(4), d2, &why2)) {
      M->attribute(x, [&](const ref::Ucd& u, bool) { u32s q; const char* w; return std::string(ref::a_label(u, l.substr(4), q, &w) ? "v" : "i"); },
                   "to_ascii(" + show8(d) + ") has label " + l + " = " + show(dec) + ", which is invalid (" + why + ")");
      continue;
    }
    x.violation(std::string("invalid A-label: ") + why, "to_ascii(" + show8(d) + ") = " + r.out + ": label " + l + " = " + show(dec) + " is invalid (" + why + ")");
  }
}
// ---------------------------------------------------------------------------------------------- C04
static void c04(Ctx& x, const Case& c) {
  const std::string& d = c.a;
  Impl a = impl_ascii(d);
  if (!a.ok) { x.count("rejected"); return; }
  Impl aa = impl_ascii(a.out);
  if (a.out.size() <= ref::kLimit) {
    if (!aa.ok || aa.out != a.out) x.violation("not idempotent", "to_ascii(" + show8(d) + ") = " + a.out + " but to_ascii of that is " + sh(aa.ok, aa.out));
  } else { x.count("over the size limit"); return; }
  Impl uu = impl_unicode(a.out);
  if (!uu.ok) { x.violation("to_unicode failed", "to_unicode(" + a.out + ") failed"); return; }
  if (uu.out.size() > ref::kLimit) return;
  Impl u2 = impl_unicode(uu.out);
  if (!u2.ok || u2.out != uu.out) x.violation("to_unicode not idempotent", "to_unicode(" + a.out + ") = " + show8(uu.out) + ", again: " + sh(u2.ok, u2.out));
  if (ref::ascii(d)) {
    // an all-ASCII domain is passed through unchecked: the way back is promised if its ACE labels are valid
    for (auto& l : ref::split(a.out))
      if (l.compare(0, 4, "xn--") == 0) {
        u32s q; const char* w;
        if (ref::a_label(M->T, l.substr(4), q, &w) != 1 || !ref::a_label(M->K, l.substr(4), q, &w)) { x.count("ASCII domain with an invalid ACE label"); return; }
      }
  }
  x.nontrivial(a.out);
  x.count("round trips");
  if (uu.out != a.out) x.count("round trips through Unicode");
  x.sample(show8(d) + " -> " + a.out + " -> " + show8(uu.out));
  Impl back = impl_ascii(uu.out);
  if (back.ok && back.out == a.out) return;
  if (ref::to_ascii(M->T, uu.out, true).lenient) { x.count("31-bit overflow"); return; }
  auto t = ref::to_ascii(M->T, uu.out, false);
  bool ascii_domain = ref::ascii(d);
  // A domain that is valid label by label but not as a Bidi domain (all-ASCII domains are not checked as one)
  auto tk = ref::to_ascii(M->K, uu.out, false);
  if (ascii_domain && ((!t.ok && !strcmp(t.why, "Bidi domain")) || (!tk.ok && !strcmp(tk.why, "Bidi domain")))) { x.count("ASCII domain breaking the Bidi rule"); return; }
  x.violation("round trip", "to_ascii(" + show8(d) + ") = " + a.out + ", to_unicode of that = " + show8(uu.out) + ", to_ascii of that = " + sh(back.ok, back.out));
}
// ---------------------------------------------------------------------------------------------- C05
// c.a and c.b are two spellings with the same mapped, normalized form.
static void c05(Ctx& x, const Case& c) {
  if (ref::ascii(c.a) != ref::ascii(c.b)) { x.count("one side ASCII"); return; }
  Impl p = impl_ascii(c.a), q = impl_ascii(c.b);
  if (c.a != c.b) x.nontrivial(c.a + "|" + c.b);
  x.count(p.ok ? "pairs accepted" : "pairs rejected");
  x.count("variant: " + c.kind);
  x.sample(show8(c.a) + " ~ " + show8(c.b) + " -> " + sh(p.ok, p.out));
  if (p.ok == q.ok && p.out == q.out) return;
  auto a = ref::to_ascii(M->K, c.a, false), b = ref::to_ascii(M->K, c.b, false);
  auto a0 = ref::to_ascii(M->T, c.a, false);
  if (a0.lenient) return;
  if (a.ok == p.ok && a.out == p.out && b.ok == q.ok && b.out == q.out) {
    // with the right normalization both spellings would be one string, so the departure is always that of K5
    x.finding("K5", show8(c.a) + " -> " + sh(p.ok, p.out) + " but " + show8(c.b) + " -> " + sh(q.ok, q.out));
    return;
  }
  x.violation(c.kind, "to_ascii(" + show8(c.a) + ") = " + sh(p.ok, p.out) + " but to_ascii(" + show8(c.b) + ") = " + sh(q.ok, q.out));
}
// ---------------------------------------------------------------------------------------------- C06
// The contract of the four entry points towards their caller; independent of what the right answer is.
// Sizes that look small in 16, 31, 32 or 40 bits: refused, and without reading the input (pages of zeros that take no memory).
static void huge(Ctx& x, const Case& c) {
  const size_t n = (size_t)c.n;
  static bool broken = false;   // one is enough: where the size is not looked at (first), larger ones take hours
  if (broken) return;
  const auto start = std::chrono::steady_clock::now();
  void* p = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { x.count("huge sizes the system has no room for"); return; }
  std::string o = "before";
  bool threw = false;
  for (int f = 0; f < 2 && !broken; f++) {
    o = "before";
    bool ok = false;
    try { std::string_view v((const char*)p, n); ok = f ? ai::to_unicode(v, o) : ai::to_ascii(v, o); } catch (const std::exception&) { threw = true; }
    if (ok || threw || !o.empty()) x.violation("huge input", std::string(f ? "to_unicode" : "to_ascii") + " of " + std::to_string(n) + " bytes " + (threw ? "throws" : ok ? "succeeds" : "leaves output")), broken = true;
    x.count("huge inputs");
    o = std::string();
  }
  munmap(p, n);
  if (std::chrono::steady_clock::now() - start > std::chrono::milliseconds(500)) { x.count("huge inputs that are read: no larger ones tried"); broken = true; }
  x.nontrivial("huge" + std::to_string(n));
}
static void c06(Ctx& x, const Case& c) {
  if (c.kind == "huge") return huge(x, c);
  const std::string& d = c.a;
  const std::string junk = "previous content, longer than the small-string buffer \xff\x80";
  std::string o1, o2 = junk, o3 = "x";
  o3.reserve(100000);
  bool b1 = ai::to_ascii(std::string_view(d), o1), b2 = ai::to_ascii(std::string_view(d), o2), b3 = ai::to_ascii(std::string_view(d), o3);
  std::string v = ai::to_ascii(std::string_view(d));
  auto what = [&](const char* f) { return std::string(f) + " of " + (d.size() > 200 ? std::to_string(d.size()) + " bytes" : show8(d)); };
  if (b1 != b2 || b1 != b3 || o1 != o2 || o1 != o3) x.violation("ascii: out reuse", what("to_ascii") + " depends on what the output buffer held: " + sh(b1, o1) + " / " + sh(b2, o2) + " / " + sh(b3, o3));
  if (!b1 && (!o1.empty() || !o2.empty())) x.violation("ascii: partial output", what("to_ascii") + " failed but left output " + show8(o1));
  if (v != (b1 ? o1 : "")) x.violation("ascii: overloads", what("to_ascii") + " overloads differ: " + show8(v) + " / " + sh(b1, o1));
  if (d.size() > ref::kLimit) {
    x.count("over the limit");
    if (b1) x.violation("ascii: limit", what("to_ascii") + " accepted an over-long input");
  } else {
    x.count(d.size() + 8 > ref::kLimit ? "just below the limit" : "below the limit");
    if (ref::ascii(d) && (!b1 || o1 != ref::lower(d))) x.violation("ascii: carve-out", what("to_ascii") + " of an ASCII domain is not its lower case");
    u32s w;
    if (!ref::ascii(d) && !ref::utf8_decode(d, w)) { x.count("malformed UTF-8"); if (b1) x.violation("ascii: malformed", what("to_ascii") + " accepted malformed UTF-8"); }
  }
  std::string u1, u2 = junk;
  bool ub1 = ai::to_unicode(std::string_view(d), u1), ub2 = ai::to_unicode(std::string_view(d), u2);
  std::string uv = ai::to_unicode(std::string_view(d));
  bool want = d.size() <= ref::kLimit;
  if (ub1 != want || ub2 != want) x.violation("unicode: status", what("to_unicode") + (ub1 ? " succeeded" : " failed"));
  if (u1 != u2) x.violation("unicode: out reuse", what("to_unicode") + " depends on what the output buffer held");
  if (!ub1 && !u1.empty()) x.violation("unicode: partial output", what("to_unicode") + " failed but left output");
  if (uv != (ub1 ? u1 : d)) x.violation("unicode: overloads", what("to_unicode") + " overloads differ");
  x.nontrivial(d.size() > 400 ? d.substr(0, 200) + std::to_string(d.size()) : d);
  if (d.size() < 200) x.sample(show8(d) + " -> " + sh(b1, o1));
}
// ---------------------------------------------------------------------------------------------- C20
// Purity: the answer for a domain does not depend on calls made before, on its address, its terminator or neighbours.
static std::map<std::string, std::string> first_answer;
static std::string all_answers(std::string_view d, std::string& o, std::string& p) {
  bool a = ai::to_ascii(d, o), u = ai::to_unicode(d, p);
  return (a ? "1" : "0") + o + "|" + (u ? "1" : "0") + p;
}
static void c20(Ctx& x, const Case& c) {
  static std::string keep_o, keep_p;  // reused across all calls of the run
  const std::string& d = c.a;
  std::string o, p, want = all_answers(d, o, p);
  auto it = first_answer.find(d);
  if (it == first_answer.end()) { if (first_answer.size() < 60000 && !x.probing) first_answer[d] = want; }
  else {
    x.count("repeated inputs");
    if (it->second != want) x.violation("history", "to_ascii/to_unicode(" + show8(d) + ") answered " + show8(it->second) + " first and " + show8(want) + " later");
  }
  if (all_answers(d, keep_o, keep_p) != want) x.violation("buffer history", "reusing output buffers changes the answer for " + show8(d));
  // a view into the middle of other text, at an odd address
  static const char* fence[] = {"\xff\xff", "xn--", "....", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80", "aaaaaaaaaaaaaaaaaaaaaaa", "\xcc\x81", "\xf0\x90"};
  for (unsigned i = 0; i < 3; i++) {
    std::string f1 = fence[(c.n + i) % 7], f2 = fence[(c.n / 7 + i) % 7];
    std::string buf = std::string((c.n >> 6) % 8 + i, 'q') + f1 + d + f2;
    std::string_view v(buf.data() + buf.size() - f2.size() - d.size(), d.size());
    if (all_answers(v, o, p) != want) { x.violation("surroundings", "the bytes around the view change the answer for " + show8(d)); break; }
    x.count("placements");
  }
  x.nontrivial(d);
  x.sample(show8(d) + " -> " + show8(want));
}

// ---------------------------------------------------------------------------------------- generation
static u32s variant(Gen& g, const u32s& in, std::string& kind) {
  u32s o;
  switch (g.r.below(8)) {
    case 0: kind = "nfd"; return ref::nfd(M->T, in);
    case 1: kind = "nfc"; return ref::nfc(M->T, in);
    case 2: kind = "canonical order"; {
      o = ref::nfd(M->T, in);
      for (int k = 0; k < 6; k++)
        for (size_t i = 0; i + 1 < o.size(); i++)
          if (M->T.ccc[o[i]] && M->T.ccc[o[i + 1]] && M->T.ccc[o[i]] != M->T.ccc[o[i + 1]] && g.r.chance(50)) std::swap(o[i], o[i + 1]);
      return o;
    }
    case 3: kind = "ignorables"; for (char32_t c : in) { if (g.r.chance(25)) o += g.r.pick(g.ignored); o += c; } if (g.r.chance(50)) o += g.r.pick(g.ignored); return o;
    case 4: kind = "dots"; for (char32_t c : in) { if (c == '.' || c == 0x3002 || c == 0xff0e || c == 0xff61) { static const char32_t d[] = {'.', 0x3002, 0xff0e, 0xff61}; o += d[g.r.below(4)]; } else o += c; } return o;
    case 5: kind = "pre-mapped"; { u32s m; for (char32_t c : in) { if (g.r.chance(50) && ref::map(M->T, u32s(1, c), m)) o += m; else o += c; } return o; }
    case 6: kind = "unmapped"; {
      // replace runs by code points that map to them
      static std::map<u32s, std::vector<char32_t>> inv;
      if (inv.empty()) for (auto& p : M->T.mapping) inv[p.second].push_back(p.first);
      for (size_t i = 0; i < in.size();) {
        bool done = false;
        for (size_t n = std::min<size_t>(4, in.size() - i); n >= 1 && g.r.chance(60); n--) {
          auto it = inv.find(in.substr(i, n));
          if (it != inv.end()) { auto v = it->second; std::sort(v.begin(), v.end()); o += v[g.r.below(v.size())]; i += n; done = true; break; }
        }
        if (!done) o += in[i++];
      }
      return o;
    }
    default: kind = "mixed"; { std::string k; u32s t = in; int n = 2 + g.r.below(2); while (n--) t = variant(g, t, k); return t; }
  }
}

static void generate(Ctx& x) {
  const std::string& P = x.prop;
  Gen g(M->T, M->K, x.seed * 1000003 + x.shard * 7919 + (P[2] - '0') * 31 + P[1], true);
  Gen gs(M->T, M->K, x.seed * 99991 + x.shard * 104729 + P[2], false);
  auto mk = [](const std::string& k, const std::string& a) { Case c; c.kind = k; c.a = a; return c; };
  auto u8 = [](const u32s& s) { return ref::utf8(s); };
  auto ace = [](const u32s& l) { std::string p; ref::puny_encode(l, p); return "xn--" + p; };
  bool dom = P == "C01" || P == "C02" || P == "C03" || P == "C04";
  if (P == "C06" && x.shard == 0)
    for (int bits : {16, 17, 24, 31, 32, 33, 40})
      for (uint64_t more : {0, 1, 77, 16384}) { Case c; c.kind = "huge"; c.unit = 0; c.n = (1ull << bits) + more; x.run(c); }
  if (P == "C01" && x.shard == 0) {
    std::ifstream f(x.oracle + "/wpt.txt");
    std::string l;
    while (std::getline(f, l)) {
      size_t a = l.find(';'), b = l.rfind(';');
      Case c = mk("wpt", unhex(l.substr(0, a)));
      c.b = l.substr(a + 1, b - a - 1);
      c.unit = 0;
      x.run(c);
    }
  }
  if (dom && x.shard == 0) {  // witnesses of the recorded findings, in every run
    for (u32s s : {u32s(U"\u061d"), u32s(U"\u0628\u200c\u0767"), u32s(U"\u0628\u200c\u1734\u0628"), u32s(U"\u1703\u1715\u200d"), u32s(U"\U00011F04\U00011F41\u200d"), u32s(U"\u0897a"), u32s(U"\u1acfa"), u32s(U"\u0105\U000105d2\u0307"), u32s(U"a\u0323\u0897\u0301"),
                   u32s(U"0\u00e0.\u05d0"), u32s(U"\u0635\u061d"), u32s(U"\u0628\u0870\u0061"), u32s(U"\u0870a")}) {
      x.run(mk("witness", u8(s)));
      std::string d;
      for (auto& l : ref::split(s)) d += (d.empty() ? "" : ".") + (ref::ascii(l) ? std::string(l.begin(), l.end()) : ace(l));
      x.run(mk("witness", d));
      x.run(mk("witness", d + u8(U".\u00fc")));
    }
  }
  if (dom) {
    // every scalar value, in contexts that tell its status, mapping, bidi class, joining type and combining behaviour
    const u32s R(1, 0x5d0), ALEF(1, 0x627), BEH(1, 0x628), NSM(1, 0x5b0), N(1, 0x200c), J(1, 0x200d), EN(1, '1');
    for (char32_t c = x.shard; c <= 0x10ffff; c += x.shards) {
      if (!ref::scalar(c)) continue;
      u32s s(1, c);
      bool dis = M->T.status[c] == ref::DIS;
      if (dis && c > 0x3ffff && c % 16 != x.seed % 16 && !x.thorough()) continue;
      std::vector<u32s> ls = {s, U"a" + s + U"b"};
      if (!dis) {
        ls.insert(ls.end(), {R + s + R, R + s, s + R, R + s + EN, R + s + NSM, s + NSM + R, U"a" + s + R, ALEF + s + ALEF, s + J, s + N + BEH, BEH + N + s, BEH + s + N + BEH, BEH + N + s + BEH, U"e" + s, s + U"\u0301", s + U"\u0323\u0301", s + U"\u3099"});
        if (x.thorough()) ls.insert(ls.end(), {s + s, s + s + s, U"e\u0301" + s, U"\u1100" + s, U"\uac00" + s, s + U"\u1161", s + U"\u11a8", U"a." + s, s + U".a", s + U"\u0338", U"\u0661" + s, R + U"\u0661" + s, BEH + U"\u064b" + N + s});
      }
      bool st = M->K.stale.count(c);
      (void)st;
      for (auto& l : ls) {
        if (P == "C02") {
          x.run(mk("sweep", ace(l)));
        } else {
          x.run(mk("sweep", u8(l)));
          if (P != "C04" && M->T.status[c] != ref::IGN) x.run(mk("sweep", ace(l) + ".\xc3\xbc"));
        }
      }
    }
    // neighbours that context-dependent rules (final sigma, dotted i, joiners, emoji sequences, ...) look at
    static const u32s near_by = U"iIjJsSzZ1.- \u00a0\u00ad\u00b7\u00b9\u00df\u0130\u0131\u0149\u017f\u01c5\u02bc\u0307\u0300\u0301\u030c\u0323\u0327\u0345\u034f\u03a3\u03c3\u03c2\u0391\u03b1\u0399\u03b9\u05d0\u0628\u0640\u064b\u094d\u0915\u0e33\u0e4d\u1100\u1161\u11a8\uac00\u1e9e\u1fb3\u200b\u200c\u200d\u2044\u2060\u20e3\u2122\u2260\u3002\u3042\u3099\u309a\u4e00\ufe00\ufe0f\uff0e\uff21\uff76\uff9e\ufdfa\U0001f1e6\U0001f3fb\U0001f468\U0001f600\U000e0061\U000e007f\U000e0100\u0378\ufffd";
    for (size_t i = x.shard; i < near_by.size(); i += x.shards) for (char32_t j : near_by) for (size_t k = 0; k <= near_by.size(); k++) {
      if (k && !x.thorough() && !g.r.chance(20)) continue;
      u32s l = {near_by[i], j};
      if (k) l += near_by[k - 1];
      for (const u32s& s : {l, U"a" + l + U"b", U"\u03b1" + l + U".\u03b1", U"\u05d0" + l}) {
        if (k && !g.r.chance(50)) continue;
        u32s m;
        x.run(mk("neighbours", u8(s)));
        if (s.find(U'.') != u32s::npos) continue;
        if (ref::map(M->T, s, m) && !g.r.chance(30)) x.run(mk("neighbours", ace(ref::nfc(M->T, m)) + (P == "C02" ? "" : ".\xc3\xbc"))); else x.run(mk("neighbours", ace(s) + (P == "C02" ? "" : ".\xc3\xbc")));
      }
    }
    // a non-ASCII code point at every offset of an ASCII run, with every UTF-8 length
    for (size_t n = x.shard; n < 160; n += x.shards)
      for (char32_t c : {0xfcu, 0x7ffu, 0x905u, 0x4e00u, 0x10400u, 0x20000u, 0xadu, 0x3002u, 0xdfu})
        for (size_t m : {0u, 1u, 5u, 14u, 15u, 16u, 17u, 31u, 33u}) {
          u32s s = u32s(n, 'b') + c + u32s(m, 'z');
          x.run(mk("offset", P == "C02" ? ace(s) : u8(s)));
        }
  }
  if (P == "C05" && x.shard == 0)
    for (auto w : {std::pair<u32s, u32s>{U"\U000105d2\u0307", U"\U000105c9"}, {U"a\U00016121\u1539", U"a\U0001611e\U0001611e\u1539"}, {U"\U00016121\u1539u", U"\U0001611e\U0001611e\u1539u"}, {U"\u00e9", U"e\u0301"}}) {
      Case c;
      c.kind = "witness"; c.a = u8(w.first); c.b = u8(w.second); c.unit = 0;
      x.run(c);
    }
  // long labels next to other ones: nothing may change at any length below the limit
  for (uint64_t i = 0, m = P == "C20" ? x.budget(48, 600) : x.budget(240, 6000); i < m; i++) {
    static const size_t lens[] = {50, 59, 60, 63, 64, 65, 100, 127, 128, 129, 200, 253, 255, 256, 257, 300, 500, 511, 512, 513, 600, 800, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2049, 3000, 4000, 4095, 4097, 5400, 8100};
    size_t len = lens[i < 36 ? i : g.r.below(36)];
    if (i >= 36) len += g.r.below(len / 8 + 1);
    u32s l, s;
    int style = (int)g.r.below(6);
    if (style > 3 && len > 1100) style = 1;
    char32_t one = g.valid_any();
    u32s few; for (int k = 0; k < 5; k++) few += g.valid_any();
    while (l.size() < len) {
      if (style == 0) l += one;
      else if (style == 1) l += g.r.pick(few);
      else if (style == 2) l += g.r.chance(90) ? (char32_t)('a' + g.r.below(26)) : one;
      else if (style == 3) l += (char32_t)(0x4e00 + g.r.below(300));
      else if (style == 4) l += g.valid_any();
      else l += g.valid_source();
    }
    l.resize(len);
    for (char32_t& ch : l) if (M->T.status[ch] == ref::IGN || ch == '.' || ch == 0x3002) ch = 'q';
    u32s m2; if (ref::map(M->T, l, m2)) l = ref::nfc(M->T, m2);
    if (l.empty()) continue;
    std::string a;
    auto put = [&](const u32s& q) { a += P == "C02" || g.r.chance(20) ? (ref::ascii(q) ? std::string(q.begin(), q.end()) : ace(q)) : u8(q); };
    if (g.r.chance(30)) { put(g.r.chance(70) ? u32s(U"\u00fc") : g.valid_source()); a += '.'; }
    put(l);
    if (g.r.chance(60)) { a += '.'; put(g.r.chance(70) ? u32s(U"\u00fc") : g.valid_source()); }
    if (a.size() > ref::kLimit) continue;
    x.count("long labels");
    Case c = mk("long label", a);
    if (P == "C05") { u32s w; ref::utf8_decode(a, w); u32s v = variant(g, w, c.kind), ma, mb; if (!ref::map(M->T, w, ma) || !ref::map(M->T, v, mb) || ref::nfc(M->T, ma) != ref::nfc(M->T, mb)) continue; c.b = u8(v); c.unit = 0; }
    if (P == "C20") c.n = g.r.next();
    x.run(c);
  }
  // something odd at the end (or next to it) of a domain or label of every size
  {
    std::vector<std::string> odd = {"xn--abc-", "xn--", "xn---", "xn--a", "xn--\xc3\xbc", "xn--ls8h=", "xn--zzzzzz99999", "XN--TDA", "xn--tda", "xn--TDA", "xn--a-ecp.ru", "a", "1", "-", "A", "-\xc3\xbc", "\xc3\xbc-", "ab--\xc3\xbc", "\xff", "\xc2\x80", "\xc3", "\xed\xa0\x80", "*\xc3\xbc", "%\xc3\xbc", "", ".", "..", "\xc3\xbc."};
    for (u32s l : {u32s(U"\u00fc"), u32s(U"\u00dc"), u32s(U"\u00df"), u32s(U"e\u0301"), u32s(U"q\u0301\u0323"), u32s(U"=\u0338"), u32s(U"<\u0338\u00fc"), u32s(U"\u2260"), u32s(U"\u0301a"), u32s(U"\u05d0"), u32s(U"\u05d01"), u32s(U"\u05d0a"), u32s(U"1\u05d0"), u32s(U"\u05d01\u0660"), u32s(U"\u0660"),
                   u32s(U"\u200ca"), u32s(U"a\u200c"), u32s(U"\u0628\u200c\u0628"), u32s(U"\u0915\u094d\u200d"), u32s(U"\ufffd"), u32s(U"\u00ad"), u32s(U"\u3002"), u32s(U"\uff0e\uff21"), u32s(U"\ufb01"), u32s(U"\u2f68"), u32s(U"\u1100\u1161"), u32s(U"\U0001f600"), u32s(U"\u3300"), u32s(U"\u212a")}) {
      odd.push_back(u8(l));
      odd.push_back(ace(l));
    }
    std::vector<size_t> sizes;
    for (size_t k = 0; k < 80; k++) sizes.push_back(k);
    for (size_t b = 128; b <= 16384; b *= 2) for (size_t k : {b - 30, b - 3, b - 2, b - 1, b, b + 1, b + 2, b + b / 4, b + b / 2, b + (size_t)gs.r.below(b)}) if (k < 16384) sizes.push_back(k);
    for (size_t k : {253, 254, 300, 1000, 3000, 5000, 10000, 15000, 16200, 16300}) sizes.push_back(k);
    size_t turn = 0;
    for (size_t k : sizes) for (int kind = 0; kind < 12; kind++) for (size_t o = 0; o < odd.size(); o++) {
      if (++turn % x.shards != x.shard) continue;
      if (k > 80 && !x.thorough() && !g.r.chance(P == "C20" ? 6 : k > 4000 ? 12 : 30)) continue;
      static const char* unit[] = {"a.", "a", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijk.", "\xc3\xbc.", "xn--tda.", "\xd7\x90.", "\xc3\x84", "\xc2\xad", "\xe3\x8c\x80", "1.", "e\xcc\x81", "xn--tda.\xc3\xbc."};
      std::string u = unit[kind], a;
      while (a.size() + u.size() <= k) a += u;
      a.insert(0, k - a.size(), 'b');
      if (g.r.chance(50) && !a.empty() && a.back() != '.') a += '.';
      a += odd[o];
      switch (g.r.below(6)) {
        case 0: a += ".\xc3\xbc"; break;
        case 1: a = "\xc3\xbc." + a; break;
        case 2: a += "b"; break;
        case 3: a += "." + odd[g.r.below(odd.size())]; break;
        case 4: a = odd[g.r.below(odd.size())] + (g.r.chance(60) ? "." : "") + a; break;
      }
      if (a.size() > ref::kLimit && P != "C06") continue;
      x.count("sizes swept");
      Case c = mk("size", a);
      if (P == "C05") { u32s w; if (!ref::utf8_decode(a, w)) continue; u32s v = variant(g, w, c.kind), ma, mb; if (!ref::map(M->T, w, ma) || !ref::map(M->T, v, mb) || ref::nfc(M->T, ma) != ref::nfc(M->T, mb)) continue; c.b = u8(v); c.unit = 0; if (c.b.size() > ref::kLimit) continue; }
      if (P == "C20") c.n = g.r.next();
      x.run(c);
    }
  }
  // labels whose punycode is next to and beyond the 31-bit limit: many characters and a high code point
  if (P == "C01" || P == "C03" || P == "C04" || P == "C06" || P == "C20")
    for (uint64_t i = 0, m = x.budget(64, 1000); i < m; i++) {
      char32_t hi = (char32_t)(0x30000 + g.r.below(0x134b));
      size_t len = (size_t)(0x7fffffffull / (hi - 0x80)) - 60 + g.r.below(g.r.chance(70) ? 120 : 4000);
      u32s l(len, g.r.chance(80) ? U'a' : U'0');
      l.insert(g.r.chance(40) ? len : g.r.below(len + 1), 1, hi);
      if (g.r.chance(30)) l.insert(g.r.below(len), 1, (char32_t)('a' + g.r.below(26)));
      if (l[0] == '0') l[0] = 'a';
      std::string a;
      if (g.r.chance(60)) a = u8(g.r.chance(50) ? u32s(U"\u00fc.") : U"a." + g.valid_source() + U".");
      a += u8(l);
      if (g.r.chance(30)) a += u8(U".\u00fc");
      if (a.size() > ref::kLimit) continue;
      x.count("labels next to the 31-bit limit");
      Case c = mk("31 bits", a);
      if (P == "C20") c.n = g.r.next();
      x.run(c);
    }
  uint64_t n = 0;
  if (P == "C01") n = x.budget(900000, 30000000);
  if (P == "C02") n = x.budget(900000, 30000000);
  if (P == "C03") n = x.budget(900000, 20000000);
  if (P == "C04") n = x.budget(700000, 20000000);
  if (P == "C05") n = x.budget(900000, 20000000);
  if (P == "C06") n = x.budget(500000, 10000000);
  if (P == "C20") n = x.budget(250000, 3000000);
  std::vector<std::string> recent;
  for (uint64_t i = 0; i < n; i++) {
    Gen& q = i % 12 == 11 ? gs : g;
    if (P == "C05") {
      Case c;
      u32s a = q.domain32(), b;
      if (q.r.chance(70) && ref::ascii(a)) a.insert(q.r.below(a.size() + 1), 1, q.r.pick(q.valid));
      b = variant(q, a, c.kind);
      u32s ma, mb;
      bool ok = ref::map(M->T, a, ma) && ref::map(M->T, b, mb);
      if (!ok) continue;
      if (ref::nfc(M->T, ma) != ref::nfc(M->T, mb)) { x.count("not equivalent, skipped"); continue; }
      c.a = u8(a); c.b = u8(b); c.unit = 0;
      x.run(c);
      continue;
    }
    std::string d;
    if (P == "C02") {
      if (q.r.chance(70)) {
        size_t k = 1 + (q.r.chance(30) ? q.r.below(3) : 0);
        for (size_t j = 0; j < k; j++) {
          if (j) d += '.';
          d += u8(q.r.chance(85) ? q.label_ace() : q.label());
        }
        if (q.r.chance(5)) d += '.';
      } else {
        d = q.domain(8);
      }
    } else if (P == "C06" && i % 16 == 0) {
      // around the size limit
      static const int off[] = {-70, -20, -9, -8, -7, -2, -1, 0, 1, 2, 3, 7, 100, 4096};
      size_t target = ref::kLimit + off[q.r.below(14)];
      switch (q.r.below(6)) {
        case 0: d = std::string(target, 'A' + q.r.below(26)); break;
        case 1: while (d.size() < target) d += (q.r.chance(50) ? "xn--nxasmq6b." : "abc."); d.resize(target, 'x'); break;
        case 2: d = std::string(target - 2, 'a') + "\xc3\xbc"; if (q.r.chance(50)) std::rotate(d.begin(), d.end() - 2, d.end()); break;
        case 3: while (d.size() < target) { d += std::string(q.r.below(12), 'b'); d += q.r.chance(60) ? "\xc3\xbc." : "."; } while (d.size() > target) d.pop_back(); break;
        case 4: d = std::string(target, '.'); break;
        default: d = std::string(target / 2, 'k') + "." + std::string(target - target / 2 - 1, (char)(q.r.chance(50) ? 0x80 + q.r.below(128) : 'm'));
      }
    } else if (q.r.below(P == "C06" ? 800 : 5000) == 0) {
      d = q.many_labels(300 + q.r.below(q.r.chance(3) ? 16000 : 2200));
    } else if (q.r.below(P == "C06" ? 1000 : 4000) == 0) {
      d = q.long_label(50 + q.r.below(q.r.chance(2) ? 12000 : 1500));
      if (q.r.chance(30)) d = q.r.chance(50) ? "a." + d : d + "." + q.domain(3);
    } else if (q.r.below(P == "C06" ? 200 : 20000) == 0) {
      d = q.long_domain(100 + q.r.below(x.thorough() ? 16300 : 3000));
    } else {
      d = q.domain(P == "C06" ? 15 : P == "C03" || P == "C04" ? 0 : 3);
    }
    Case c = mk("random", d);
    if (P == "C20") {
      c.n = q.r.next();
      recent.push_back(d);
      x.run(c);
      if (i % 2) { c.a = recent[q.r.below(recent.size())]; c.n = q.r.next(); x.run(c); }
      if (recent.size() > 3000) recent.erase(recent.begin(), recent.begin() + 1000);
      continue;
    }
    x.run(c);
  }
}

int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  Ctx x;
  for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--prop")) x.prop = argv[i + 1]; if (!strcmp(argv[i], "--oracle")) x.oracle = argv[i + 1]; }
  M = std::make_unique<Models>(x.oracle);
  x.check = x.prop == "C01" ? c01 : x.prop == "C02" ? c02 : x.prop == "C03" ? c03 : x.prop == "C04" ? c04 : x.prop == "C05" ? c05 : x.prop == "C06" ? c06 : c20;
  x.variant_percent = x.prop == "C20" ? 50 : 20;
  auto g = std::make_shared<Gen>(M->T, M->K, x.seed * 77, true);
  x.fuzz_mode = [](const std::string&) { return 't'; };
  x.piece = [g](Rng& r) { g->r = r; u32s p = r.chance(50) ? u32s(1, g->valid_any()) : r.chance(50) ? g->label() : u32s(1, r.chance(50) ? g->r.pick(g->mapped) : g->r.pick(g->marks)); r = g->r; return p; };
  x.fuzz_fix = [&x, g](Case& c) {
    if (x.prop == "C20") { g->r = Rng(c.n); c.n = g->r.next(); }
    if (c.kind == "wpt" || c.kind == "huge") return false;
    if (x.prop != "C05") return true;
    u32s w, v, ma, mb;
    if (!ref::utf8_decode(c.a, w)) return false;
    g->r = Rng(c.n);
    v = variant(*g, w, c.kind);
    c.unit = 0;
    c.b = ref::utf8(v);
    return ref::map(M->T, w, ma) && ref::map(M->T, v, mb) && ref::nfc(M->T, ma) == ref::nfc(M->T, mb);
  };
  return harness_main(argc, argv, x, generate);
}
