// C22, C23: a fixed workload over all entry points, and the digest of all answers in chunks. The same object file is
// linked with the library built in different ways; the digests must agree. --dump N writes out the answers of chunk N.
// Also (--probe FILE): answers for the code points that FILE lists, for tables generated from synthetic data.
#include "common.hpp"
#include "idna.h"
#include <memory>
using ref::u32s;
namespace ai = ada::idna;
static std::unique_ptr<Models> M;
static uint64_t h = 1469598103934665603ull;
static FILE* dump = nullptr;
static uint64_t calls = 0;
static void add(const std::string& what, const std::string& answer) {
  calls++;
  for (unsigned char c : answer) { h ^= c; h *= 1099511628211ull; }
  h ^= 0xabcd; h *= 1099511628211ull;
  if (dump) fprintf(dump, "%s = %s\n", what.c_str(), answer.c_str());
}
static std::string n(size_t v) { return std::to_string(v); }
static void byte_apis(const std::string& s) {
  std::string o = "old", p;
  bool b = ai::to_ascii(s, o);
  std::string in = show8(s);
  add("to_ascii(" + in + ")", n(b) + " " + show8(o) + " " + show8(ai::to_ascii(s)));
  b = ai::to_unicode(s, p);
  add("to_unicode(" + in + ")", n(b) + " " + show8(p) + " " + show8(ai::to_unicode(s)));
  u32s w;
  b = ai::punycode_to_utf32(s, w);
  add("punycode_to_utf32(" + in + ")", n(b) + (b ? show(w) : ""));
  add("verify_punycode(" + in + ")", n(ai::verify_punycode(s)));
  add("contains_forbidden_domain_code_point(" + in + ")", n(ai::contains_forbidden_domain_code_point(s)));
  size_t k = ai::utf32_length_from_utf8(s.data(), s.size());
  w.assign(s.size(), 0);
  size_t m = ai::utf8_to_utf32(s.data(), s.size(), w.data());
  add("utf8_to_utf32(" + in + ")", n(k) + " " + n(m) + " " + show(w.substr(0, m)));
  if (ref::ascii(s)) { o = s; ai::ascii_map(o.data(), o.size()); add("ascii_map(" + in + ")", show8(o)); }
}
static void word_apis(const u32s& s, bool label) {
  u32s o = U"old", q = s;
  std::string in = show(s), p;
  bool b = ai::map(s, o);
  add("map(" + in + ")", n(b) + show(o) + " " + show(ai::map(s)));
  b = ai::normalize(q);
  add("normalize(" + in + ")", n(b) + show(q) + n(ai::is_already_nfc(s)));
  if (label) add("is_label_valid(" + in + ")", n(ai::is_label_valid(s)));
  b = ai::utf32_to_punycode(s, p);
  add("utf32_to_punycode(" + in + ")", n(b) + (b ? p : ""));
  size_t k = ai::utf8_length_from_utf32(s.data(), s.size());
  p.assign(s.size() * 4, 0);
  size_t m = ai::utf32_to_utf8(s.data(), s.size(), p.data());
  add("utf32_to_utf8(" + in + ")", n(k) + " " + n(m) + " " + show8(p.substr(0, m)));
  std::string id;
  for (char32_t c : s) { id += ai::valid_name_code_point(c, true) ? 's' : '.'; id += ai::valid_name_code_point(c, false) ? 'p' : '.'; }
#ifndef NO_IDENT
  add("valid_name_code_point(" + in + ")", id);
#endif
}
int main(int argc, char** argv) {
  std::string out, oracle;
  uint64_t seed = 1, chunks = 64, per = 400;
  long only = -1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    if (k == "--oracle") oracle = v;
    if (k == "--out") out = v;
    if (k == "--chunks") chunks = strtoull(v.c_str(), nullptr, 10);
    if (k == "--per") per = strtoull(v.c_str(), nullptr, 10);
    if (k == "--dump") only = atol(v.c_str());
  }
  M = std::make_unique<Models>(oracle);
  FILE* f = fopen(out.c_str(), "w");
  if (!f) return 3;
  for (uint64_t ch = 0; ch < chunks; ch++) {
    if (only >= 0 && (uint64_t)only != ch) continue;
    dump = only >= 0 ? f : nullptr;
    h = 1469598103934665603ull;
    static Gen g(M->T, M->K, 1, false);
    g.r = Rng(seed * 1000003 + ch * 7919 + 22);
    Rng& r = g.r;
    for (char32_t c = (char32_t)ch; c < 0x34000; c += (char32_t)chunks * (per > 1000 ? 1 : 3)) {
      u32s s(1, c);
      word_apis(s, true);
      if (ref::scalar(c)) { byte_apis(ref::utf8(s)); word_apis(U"\u05d0" + s + U"\u0301", true); }
    }
    for (uint64_t i = 0; i < per; i++) {
      byte_apis(g.domain(20));
      { std::string s; for (char32_t c : g.label_ace()) ref::utf8_put(s, c); byte_apis(s); }
      byte_apis(g.random_puny());
      { std::string s; size_t k = r.below(70); while (k--) s += (char)(r.chance(80) ? r.below(128) : r.below(256)); byte_apis(s); }
      word_apis(g.valid_source(), true);
      word_apis(g.label_norm(), true);
      { u32s s; size_t k = r.below(6); while (k--) s += (char32_t)(r.chance(50) ? r.next() : r.below(0x110000)); word_apis(s, true); }
      if (i % 97 == 0) byte_apis(g.long_domain(r.below(3000)));
    }
    if (only < 0) fprintf(f, "%llu %016llx\n", (unsigned long long)ch, (unsigned long long)h);
  }
  fprintf(f, "calls %llu\n", (unsigned long long)calls);
  fclose(f);
  return 0;
}
