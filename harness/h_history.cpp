// C20, all entry points: what a call answers after any history of calls, in the same buffers, in several threads, must be
// what it answers as the first call of a process. The first-call answers come from children forked by a server that was
// itself forked before this process made any call; no model is involved.
#include "common.hpp"
#include "idna.h"
#include <clocale>
#include <locale>
#include <memory>
#include <mutex>
#include <sys/socket.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using ref::u32s;
namespace ai = ada::idna;

struct Call { int f = 0; std::string in; };
static const char* const kName[] = {"to_ascii", "to_ascii (value)", "to_unicode", "to_unicode (value)", "punycode_to_utf32", "verify_punycode", "contains_forbidden_domain_code_point", "utf8_to_utf32", "utf32_length_from_utf8", "ascii_map",
                                    "map", "map (value)", "normalize", "is_already_nfc", "is_label_valid", "utf32_to_punycode", "utf32_to_utf8", "utf8_length_from_utf32", "valid_name_code_point start", "valid_name_code_point part"};
static const int kBytes = 10, kFuncs = 20;

// Buffers that keep their addresses from call to call.
struct Place {
  std::string in8, out8;
  u32s in32, out32;
  Place() { in8.reserve(70000); out8.reserve(70000); in32.reserve(70000); out32.reserve(70000); }
};
static std::string answer(const Call& c, Place& p) {
  auto n = [](uint64_t v) { return std::to_string(v) + ":"; };
  std::string_view v;
  std::u32string_view w;
  if (c.f < kBytes) { p.in8.assign(c.in); v = p.in8; } else { p.in32.resize(c.in.size() / 4); if (c.in.size() > 3) memcpy(p.in32.data(), c.in.data(), p.in32.size() * 4); w = p.in32; }
  try {
    switch (c.f) {
      case 0: { bool b = ai::to_ascii(v, p.out8); return n(b) + p.out8; }
      case 1: return ai::to_ascii(v);
      case 2: { bool b = ai::to_unicode(v, p.out8); return n(b) + p.out8; }
      case 3: return ai::to_unicode(v);
      case 4: { p.out32.clear(); bool b = ai::punycode_to_utf32(v, p.out32); return n(b) + (b ? pack32(p.out32) : ""); }
      case 5: return n(ai::verify_punycode(v));
      case 6: return n(ai::contains_forbidden_domain_code_point(v));
      case 7: { p.out32.assign(v.size(), 0); size_t k = ai::utf8_to_utf32(v.data(), v.size(), p.out32.data()); return n(k) + pack32(p.out32.substr(0, std::min(k, v.size()))); }
      case 8: return n(ai::utf32_length_from_utf8(v.data(), v.size()));
      case 9: for (char& ch : p.in8) ch &= 0x7f; ai::ascii_map(p.in8.data(), p.in8.size()); return p.in8;
      case 10: { bool b = ai::map(w, p.out32); return n(b) + pack32(p.out32); }
      case 11: return pack32(ai::map(w));
      case 12: { p.out32.assign(w); bool b = ai::normalize(p.out32); return n(b) + pack32(p.out32); }
      case 13: return n(ai::is_already_nfc(w));
      case 14: return n(ai::is_label_valid(w));
      case 15: { p.out8.clear(); bool b = ai::utf32_to_punycode(w, p.out8); return n(b) + (b ? p.out8 : ""); }
      case 16: { p.out8.assign(w.size() * 4, 0); size_t k = ai::utf32_to_utf8(w.data(), w.size(), p.out8.data()); return n(k) + p.out8.substr(0, std::min(k, w.size() * 4)); }
      case 17: return n(ai::utf8_length_from_utf32(w.data(), w.size()));
      case 18: case 19: { std::string o; for (char32_t ch : p.in32) o += ai::valid_name_code_point(ch, c.f == 18) ? '1' : '0'; return o; }
    }
  } catch (const std::exception& e) { return std::string("exception ") + e.what(); }
  return "?";
}
static std::string what(const Call& c) { return std::string(kName[c.f]) + "(" + (c.f < kBytes ? show8(c.in) : show(unpack32(c.in))) + ")"; }

// ---- the server ---------------------------------------------------------------------------------------------
static int sock = -1;
static bool rd(int fd, void* p, size_t n) { char* q = (char*)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
static bool wr(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
static bool rds(int fd, std::string& s) { uint32_t n; if (!rd(fd, &n, 4)) return false; s.resize(n); return rd(fd, s.data(), n); }
static bool wrs(int fd, const std::string& s) { uint32_t n = (uint32_t)s.size(); return wr(fd, &n, 4) && wr(fd, s.data(), n); }
[[noreturn]] static void serve(int fd) {
  for (;;) {
    Call c;
    int32_t f;
    if (!rd(fd, &f, 4) || !rds(fd, c.in)) _exit(0);
    c.f = f;
    pid_t pid = fork();
    if (pid == 0) {
      Place p;
      bool ok = wrs(fd, answer(c, p));
      _exit(ok ? 0 : 1);
    }
    int st = 0;
    if (pid < 0) _exit(9);
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) wrs(fd, "ended with status " + std::to_string(st));
  }
}
static std::string fresh(const Call& c) {
  int32_t f = c.f;
  std::string a;
  if (!wr(sock, &f, 4) || !wrs(sock, c.in) || !rds(sock, a)) { fprintf(stderr, "the server is gone\n"); _exit(9); }
  return a;
}

// The locale of the process, which no answer may depend on: C, or C.UTF-8 with a C++ locale that folds letters its own way.
struct OddCtype : std::ctype<char> {
  OddCtype() : std::ctype<char>(table()) {}
  static const mask* table() { static mask t[table_size]; for (int i = 0; i < (int)table_size; i++) t[i] = i < 32 ? cntrl : i == '-' || i == '.' || i == ' ' ? space : (mask)(alpha | upper | print); return t; }
  char do_tolower(char c) const override { return c == 'I' ? (char)0xfd : c == '-' ? '_' : (char)(c | 0x20); }
  char do_toupper(char c) const override { return c == 'i' ? (char)0xdd : (char)(c & 0x5f); }
  const char* do_tolower(char* a, const char* b) const override { for (; a < b; a++) *a = do_tolower(*a); return b; }
  const char* do_toupper(char* a, const char* b) const override { for (; a < b; a++) *a = do_toupper(*a); return b; }
};
static std::string loc = "C";
static void locale_of(const std::string& s) {
  if (s == loc) return;
  loc = s;
  static const std::locale odd(std::locale::classic(), new OddCtype);
  std::locale::global(s == "C" ? std::locale::classic() : odd);
  setlocale(LC_ALL, s == "C" ? "C" : "C.UTF-8");
}

// ---- histories ----------------------------------------------------------------------------------------------
static std::string mutate(Rng& r, const std::string& s, size_t u, const std::string& other) {
  std::string t = s;
  size_t n = t.size() / u;
  if (!n) return t;
  auto unit = [&](size_t i) { return t.substr(i * u, u); };
  size_t i = r.below(n), j = r.below(n);
  switch (r.below(9)) {
    case 8: if (u == 4) { uint32_t w; memcpy(&w, &t[i * 4], 4); w ^= 1u << (7 + r.below(14)); memcpy(&t[i * 4], &w, 4); } break;   // the same low bits
    case 0: case 1: { std::string a = unit(i), b = unit(j); t.replace(i * u, u, b); t.replace(j * u, u, a); break; }   // same length, sum, set of units
    case 2: t[i * u] = (char)(u == 4 ? t[i * u] ^ 1 : (t[i] & 0x80) ? t[i] : 'a' + r.below(26)); break;
    case 3: if (!(t[i * u] & 0x80)) t[i * u] ^= 0x20; break;
    case 4: t.erase(i * u, u); break;
    case 5: t.erase((i + 1) * u); break;                                                                             // a prefix
    case 6: t.erase(0, i * u); break;                                                                                // a suffix
    default: if (other.size() >= u) t.insert(i * u, other.substr(0, u * (1 + r.below(std::min<size_t>(4, other.size() / u)))));
  }
  return t;
}
struct Script { std::vector<Call> pool; std::vector<std::string> want; };

// Every code point in a few contexts, visited in orders in which those that agree in some of their bits, or lie in the same
// block, follow one another: the answers must not depend on the order.
static void orders(Ctx& x, Rng& r) {
  std::vector<uint32_t> cps;
  for (uint32_t c = x.shard; c < 0x110000; c += x.shards)
    if ((c < 0xd800 || c > 0xdfff) && (x.thorough() || c < 0x3400 || (c >= 0xa000 && c < 0x12000) || (c >= 0x1d000 && c < 0x1f800) || (c >= 0xe0000 && c < 0xe0200) || (c < 0x34000 && c % 5 == x.seed % 5) || c % 67 == x.seed % 67)) cps.push_back(c);
  struct Ctxt { int f; std::u32string pre, post; };
  const std::vector<Ctxt> ctx = {{12, U"", U""}, {12, U"e", U""}, {12, U"", U"\u0323\u0301"}, {13, U"", U""}, {13, U"o", U"\u0323"}, {14, U"", U""}, {14, U"a", U""}, {14, U"\u05d0", U""}, {14, U"\u0628\u200c", U""},
                                 {14, U"", U"\u200d"}, {10, U"", U""}, {15, U"", U""}, {18, U"", U""}, {19, U"", U""}, {0, U"a", U".\u00fc"}, {2, U"a", U""}};
  std::vector<std::vector<uint32_t>> ord;
  ord.push_back(cps);
  for (uint32_t bits : {16u, 8u, 12u, 10u, 7u, 5u}) {
    auto o = cps;
    uint32_t mask = (1u << bits) - 1;
    std::stable_sort(o.begin(), o.end(), [&](uint32_t a, uint32_t b) { return (a & mask) < (b & mask); });
    ord.push_back(o);
  }
  { auto o = cps; std::reverse(o.begin(), o.end()); ord.push_back(o); }
  { auto o = cps; for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]); ord.push_back(o); }
  Place place;
  auto call = [&](const Ctxt& k, uint32_t c) {
    Call q;
    q.f = k.f;
    std::u32string s = k.pre + (char32_t)c + k.post;
    if (k.f < kBytes) q.in = ref::utf8(s); else q.in = pack32(s);
    return q;
  };
  std::vector<std::string> want(0x110000);
  for (auto& k : ctx) {
    for (size_t n = 0; n < ord.size(); n++) {
      std::vector<uint32_t> hist;
      locale_of(n % 2 ? "U" : "C");
      for (uint32_t c : ord[n]) {
        Call q = call(k, c);
        std::string a = answer(q, place);
        x.evaluations++;
        if (n == 0) { want[c] = a; x.nontrivial(std::to_string(q.f) + q.in); }
        else if (a != want[c]) {
          Case cs; cs.kind = "order"; cs.unit = 0; cs.a = q.in; cs.n = (uint64_t)q.f; cs.b = loc;
          x.cur = &cs;
          for (size_t j = hist.size() > 20 ? hist.size() - 20 : 0; j < hist.size(); j++) { Call h = call(k, hist[j]); Case p; p.kind = "call"; p.unit = 0; p.a = h.in; p.n = (uint64_t)h.f; x.past.push_back(p); }
          x.violation("order of calls", what(q) + " answers " + hex(a).substr(0, 200) + " after " + (hist.empty() ? "nothing" : what(call(k, hist.back()))) + ", but " + hex(want[c]).substr(0, 200) + " when the code points are visited in ascending order");
          x.past.clear();
          x.cur = nullptr;
          if (x.nviols > 40) return;
        }
        if (hist.size() > 200) hist.erase(hist.begin(), hist.begin() + 100);
        hist.push_back(c);
      }
      x.count("calls in orders of code points", ord[n].size());
    }
  }
}

// Tens of thousands of distinct texts of one length, visited twice in different orders: what takes two texts for one because
// they agree in length and in some digest of theirs answers differently
static void crowds(Ctx& x, Gen& g) {
  Rng& r = g.r;
  Place place;
  const size_t N = x.budget(8 * 24000, 8 * 200000) ;
  static const u32s ps[] = {U"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-", U"\u00e0\u00e1\u00fc\u00f6\u00c4\u00df\u0100\u0101\u03b1\u03c2\u0434\u0451\u05d0\u0628\u0660\u06f1\u0627", U"\u0301\u0323\u0308\u0327\u0345\u05b0"};
  for (int f = 0; f < kFuncs; f++) {
    std::vector<std::string> in;
    size_t len = 5 + r.below(6);
    for (size_t i = 0; i < N; i++) {
      std::string s;
      u32s w;
      if (f >= kBytes) {
        for (size_t k = 0; k < len; k++) w += f > 17 ? (char32_t)r.below(0x3400) : r.chance(60) ? r.pick(g.valid) : r.chance(50) ? ps[2][r.below(6)] : ps[k % 2][r.below(17)];
        s = pack32(w);
      } else if (f == 4 || f == 5) { for (size_t k = 0; k < len + 2; k++) s += "abcdefghijklmnopqrstuvwxyz0123456789-"[r.below(37)]; }
      else if (f == 7 || f == 8 || f == 6) { for (size_t k = 0; k < len; k++) s += r.chance(60) ? (char)('a' + r.below(26)) : (char)r.next(); }
      else if (f == 2 || f == 3 ? i % 4 != 3 : f < 2 && i % 4 == 3) { s = "xn--"; for (size_t k = 0; k < len; k++) s += "abcdefghijklmnopqrstuvwxyz0123456789-"[r.below(37)]; }
      else { for (size_t k = 0; k < len; k++) w += k == 2 && i % 8 == 7 ? U'.' : ps[f == 9 ? 0 : k % 2][r.below(k % 2 && f != 9 ? 17 : 43)]; s = ref::utf8(w); }
      in.push_back(s);
    }
    std::vector<size_t> want(N), ord(N), prev(N);
    for (size_t i = 0; i < N; i++) ord[i] = i;
    for (int pass = 0; pass < 2; pass++) {
      locale_of(pass ? "U" : "C");
      for (size_t k = 0; k < N; k++) {
        size_t i = ord[k];
        Call q{f, in[i]};
        size_t a = std::hash<std::string>()(answer(q, place));
        x.evaluations++;
        if (!pass) { want[i] = a; prev[i] = k ? ord[k - 1] : i; continue; }
        if (a == want[i]) continue;
        Case cs; cs.kind = "crowd"; cs.unit = 0; cs.a = in[i]; cs.n = (uint64_t)f; cs.b = loc;
        x.cur = &cs;
        for (size_t j : {prev[i], k ? ord[k - 1] : i}) { Case p; p.kind = "call"; p.unit = 0; p.a = in[j]; p.n = (uint64_t)f; x.past.push_back(p); }
        x.violation("among many alike", what(q) + " answers differently after " + what(Call{f, in[prev[i]]}) + " and after " + (k ? what(Call{f, in[ord[k - 1]]}) : "the other pass"));
        x.past.clear();
        x.cur = nullptr;
        if (x.nviols > 40) return;
      }
      for (size_t i = N; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
    }
    x.count("calls among many alike", 2 * N);
  }
}

static void generate(Ctx& x) {
  Models m(x.oracle);
  Gen g(m.T, m.K, x.seed * 1000003 + x.shard * 7919 + 2020, true);
  Rng& r = g.r;
  orders(x, r);
  crowds(x, g);
  uint64_t scripts = x.budget(160, 6000);
  Place place;
  std::mutex mu;
  for (uint64_t sc = 0; sc < scripts; sc++) {
    Script s;
    locale_of(sc % 2 ? "U" : "C");
    std::vector<std::string> seeds8, seeds32;
    for (int k = 0; k < 3; k++) {
      std::string d = r.chance(8) ? g.long_domain(60 + r.below(400)) : g.domain(10);
      seeds8.push_back(d);
      std::string p; if (r.chance(15)) p = g.hostile_puny(); else ref::puny_encode(g.label_norm(), p); seeds8.push_back(r.chance(50) ? "xn--" + p : p);
      seeds32.push_back(pack32(r.chance(50) ? g.label_norm() : g.valid_source()));
      u32s w; size_t q = 1 + r.below(12); while (q--) w += g.valid_any(); seeds32.push_back(pack32(w));
      ref::utf8_decode(d, w); seeds32.push_back(pack32(w));
    }
    int nf = 1 + (int)r.below(6), fs[6];
    for (int k = 0; k < nf; k++) fs[k] = (int)r.below(kFuncs);
    size_t want_n = 60 + r.below(100);
    while (s.pool.size() < want_n) {
      Call c;
      c.f = fs[r.below((uint64_t)nf)];
      auto& sd = c.f < kBytes ? seeds8 : seeds32;
      size_t u = c.f < kBytes ? 1 : 4;
      c.in = sd[r.below(sd.size())];
      int k = (int)r.below(3);
      while (k--) c.in = mutate(r, c.in, u, sd[r.below(sd.size())]);
      if (r.chance(20)) sd.push_back(c.in);
      // the same text to a sibling function too
      s.pool.push_back(c);
      if (r.chance(40)) { c.f = c.f < kBytes ? (int)r.below(kBytes) : kBytes + (int)r.below(kFuncs - kBytes); s.pool.push_back(c); }
    }
    for (auto& c : s.pool) s.want.push_back(fresh(c));
    x.count("answers of fresh processes", s.pool.size());
    auto judge = [&](size_t i, const std::string& got, const std::vector<size_t>& hist, const char* how) {
      if (got == s.want[i]) return;
      std::lock_guard<std::mutex> l(mu);
      std::string d = what(s.pool[i]) + " answers " + hex(got).substr(0, 200) + " " + how + ", but " + hex(s.want[i]).substr(0, 200) + " as the first call of a process; calls before: ";
      for (size_t k = hist.size() > 4 ? hist.size() - 4 : 0; k < hist.size(); k++) d += what(s.pool[hist[k]]) + "; ";
      Case c;
      c.kind = kName[s.pool[i].f];
      for (char& ch : c.kind) if (ch == ' ') ch = '_';
      c.unit = 0; c.a = s.pool[i].in; c.n = (uint64_t)s.pool[i].f; c.b = loc;
      x.cur = &c;
      for (size_t k = hist.size() > 8 ? hist.size() - 8 : 0; k < hist.size(); k++) { Case q; q.kind = "call"; q.n = (uint64_t)s.pool[hist[k]].f; q.a = s.pool[hist[k]].in; q.unit = 0; x.past.push_back(q); }
      x.violation(how, d);
      x.past.clear();
      x.cur = nullptr;
    };
    std::vector<size_t> hist;
    size_t steps = x.thorough() ? 6000 : 3000;
    for (size_t k = 0; k < steps; k++) {
      size_t i = k < s.pool.size() ? k : (hist.size() > 2 && r.chance(30)) ? hist[hist.size() - 2] : (hist.size() && r.chance(40)) ? std::min(s.pool.size() - 1, hist.back() + r.below(3)) : r.below(s.pool.size());
      x.evaluations++;
      judge(i, answer(s.pool[i], place), hist, "after other calls");
      hist.push_back(i);
    }
    for (auto& c : s.pool) x.nontrivial(std::to_string(c.f) + c.in);
    if (sc % 4 == 0) {   // the same, in threads at once
      std::vector<std::thread> ts;
      for (int t = 0; t < 4; t++) ts.emplace_back([&, t, seed = r.next()] {
        Rng q(seed + (uint64_t)t);
        Place p;
        std::vector<size_t> h;
        for (size_t k = 0; k < 400; k++) { size_t i = q.below(s.pool.size()); judge(i, answer(s.pool[i], p), h, "in concurrent threads"); h.push_back(i); }
      });
      for (auto& t : ts) t.join();
      x.evaluations += 1600;
      x.count("histories in four threads");
    }
    x.count("histories");
    if (loc != "C") x.count("histories in another locale");
    x.sample(std::to_string(s.pool.size()) + " calls, e.g. " + what(s.pool[0]));
  }
}

int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 9;
  pid_t pid = fork();
  if (pid == 0) { close(sv[0]); serve(sv[1]); }
  close(sv[1]);
  sock = sv[0];
  Ctx x;
  static Place place;
  x.check = [](Ctx& c, const Case& k) {
    Call q; q.f = (int)k.n; q.in = k.a;
    if (q.f < 0 || q.f >= kFuncs) return;
    locale_of(k.b.empty() ? "C" : k.b);
    std::string w = fresh(q), got = answer(q, place);
    if (w != got) c.violation("after other calls", what(q) + " answers " + hex(got).substr(0, 200) + ", but " + hex(w).substr(0, 200) + " as the first call of a process");
  };
  int rc = harness_main(argc, argv, x, generate);
  close(sock);
  waitpid(pid, nullptr, 0);
  return rc;
}
