// C15, C16: first use of the tables. Every case runs in a freshly forked process, so that every case sees an
// uninitialized library: C15 races the first calls of many threads, C16 makes the initialization fail.
#include "common.hpp"
#include "idna.h"
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sched.h>
#include <time.h>
#include <atomic>
#include <memory>
#include <new>
#include <thread>
#ifdef HAVE_BLOB
#include "table_blob.inc"
#include "blob_edit.hpp"
#endif

#ifdef HAVE_INFLATE
#include "raw_inflate.hpp"
// a stream with a fixed and one with a dynamic Huffman block
static const uint8_t kFixed[] = {11, 205, 203, 76, 206, 79, 73, 85, 240, 116, 241, 115, 84, 112, 206, 207, 45, 72, 44, 201, 76, 202, 204, 201, 44, 169, 84, 8, 40, 202, 79, 78, 45, 46, 206, 204, 75, 215, 81, 200, 73, 76, 74, 205, 81, 72, 170, 132, 48, 172, 20, 82, 43, 18, 115, 11, 114, 82, 245, 146, 243, 115, 117, 20, 42, 242, 116, 117, 147, 146, 51, 82, 139, 116, 179, 203, 18, 245, 160, 82, 58, 10, 137, 68, 2, 0};
static const uint8_t kDynamic[] = {5, 193, 161, 13, 0, 48, 12, 3, 176, 87, 246, 90, 129, 65, 73, 67, 242, 191, 102, 91, 204, 204, 149, 209, 174, 55, 158, 85, 92, 244, 244, 137, 153, 168, 51, 52, 199, 61, 94, 223, 75, 115, 216, 73, 215, 120, 237, 105, 222, 189, 154, 11, 105, 231, 25, 222, 238, 246, 8, 18, 77, 183, 227, 178, 79, 95, 36, 106, 186, 145, 78, 91, 201, 110, 103, 57, 89, 194, 97, 192, 42, 136, 115, 207, 188, 206, 160, 45, 188, 216, 162, 60, 243, 114, 141, 123, 25, 57, 189, 237, 93, 61, 0, 79, 23, 177, 118, 188, 141, 42, 123, 93, 227, 42, 163, 91, 232, 106, 57, 77, 47, 19, 30, 8, 221, 104, 139, 125, 99, 163, 170, 212, 110, 109, 44, 181, 49, 96, 143, 194, 150, 113, 60, 109, 196, 7};
#endif

#if defined(__SANITIZE_THREAD__)
static constexpr bool kTsan = true;
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
static constexpr bool kTsan = true;
#else
static constexpr bool kTsan = false;
#endif
#else
static constexpr bool kTsan = false;
#endif
using ref::u32s;
namespace ai = ada::idna;

// ---- allocation monitor: the table buffer is the only allocation this large --------------------------------
static constexpr size_t kBig = 100000;
static std::atomic<int> big_live{0}, big_total{0};
static std::atomic<bool> fail_big{false};
static std::atomic<unsigned> delay_us{0};
static void pause_us(unsigned us) { if (us) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; nanosleep(&t, nullptr); } }
struct Hdr { size_t n, pad; };
static void* take(size_t n) {
  if (n >= kBig) {
    if (fail_big.load()) return nullptr;
    pause_us(delay_us.load());
    big_live++; big_total++;
  }
  Hdr* h = (Hdr*)malloc(n + sizeof(Hdr));
  if (!h) return nullptr;
  h->n = n;
  return h + 1;
}
static void give(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->n >= kBig) { pause_us(delay_us.load() / 4); big_live--; }
  free(h);
}
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

// ---- the calls that are observed -----------------------------------------------------------------------------
struct Op { int api; std::string s; u32s w; };
static const char* api_name[] = {"to_ascii", "to_ascii(out)", "to_unicode", "to_unicode(out)", "normalize", "is_already_nfc", "map", "map(out)", "is_label_valid", "valid_name_code_point", "punycode_to_utf32", "utf32_to_punycode", "verify_punycode", "contains_forbidden_domain_code_point", "inflate_raw"};
static constexpr int kApis = 14, kTableApis = 10;
static std::string perform(const Op& o) {
  std::string t;
  u32s w;
  switch (o.api) {
    case 0: return ai::to_ascii(o.s);
    case 1: { t = "old"; bool b = ai::to_ascii(o.s, t); return (b ? "1" : "0") + t; }
    case 2: return ai::to_unicode(o.s);
    case 3: { t = "old"; bool b = ai::to_unicode(o.s, t); return (b ? "1" : "0") + t; }
    case 4: { w = o.w; bool b = ai::normalize(w); return (b ? "1" : "0") + pack32(w); }
    case 5: return ai::is_already_nfc(o.w) ? "1" : "0";
    case 6: return pack32(ai::map(o.w));
    case 7: { w = U"old"; bool b = ai::map(o.w, w); return (b ? "1" : "0") + pack32(w); }
    case 8: return ai::is_label_valid(o.w) ? "1" : "0";
    case 9: { t = ""; for (char32_t c : o.w) { t += ai::valid_name_code_point(c, true) ? "1" : "0"; t += ai::valid_name_code_point(c, false) ? "1" : "0"; } return t; }
    case 10: { bool b = ai::punycode_to_utf32(o.s, w); return (b ? "1" : "0") + (b ? pack32(w) : ""); }
    case 11: { bool b = ai::utf32_to_punycode(o.w, t); return (b ? "1" : "0") + (b ? t : ""); }
    case 12: return ai::verify_punycode(o.s) ? "1" : "0";
    case 13: return ai::contains_forbidden_domain_code_point(o.s) ? "1" : "0";
#ifdef HAVE_INFLATE
    case 14: { t.resize(1000); t.resize(ai::deflate::inflate_raw((const uint8_t*)o.s.data(), o.s.size(), (uint8_t*)t.data(), t.size())); return t; }
#endif
  }
  return "";
}
// What the call may answer when the tables cannot be had (besides the right answer).
static bool fails_closed(const Op& o, const std::string& got) {
  switch (o.api) {
    case 0: return got.empty();
    case 1: return got == "0";
    case 2: return got == o.s;
    case 3: return got == "1" + o.s;
    case 4: return got == "0" + pack32(o.w);
    case 5: return got == "0";
    case 6: return got.empty();
    case 7: return got == "0";
    case 8: return got == "0";
    default: return false;
  }
}
// Inputs for which no table is needed: the answer must be right whatever happened to the tables.
static bool needs_tables(const Op& o) {
  switch (o.api) {
    case 0: case 1: return !ref::ascii(o.s);
    case 2: case 3: return o.s.find("xn--") != std::string::npos;
    case 5: case 8: return !o.w.empty();
    case 4: case 6: case 7: case 9: return true;
    default: return false;
  }
}
static std::vector<Op> corpus;
static std::vector<std::string> expected;
static char* shared = nullptr;   // written by the child
static const size_t kShared = 1 << 20;

static void make_corpus(const Models& M, uint64_t seed) {
  Gen g(M.T, M.K, seed, true);
  auto add = [&](int api, const std::string& s, const u32s& w) { corpus.push_back({api, s, w}); };
  for (int i = 0; i < 24; i++) {
    for (int api = 0; api < kApis; api++) {
      u32s w = g.r.chance(60) ? g.valid_source() : g.label();
      std::string s;
      if (api == 2 || api == 3) { for (char32_t c : g.label_ace()) ref::utf8_put(s, c); s += "."; u32s l; u32s src = g.label_script(); if (!ref::map(M.T, src, l) || l.empty()) l = U"\u00fc"; l = ref::nfc(M.T, l); std::string p; ref::puny_encode(l, p); s += "xn--" + p; }
      else if (api >= 10) s = g.random_puny();
      else s = ref::utf8(w) + (i % 2 ? ".\xc3\xbc.Example" : "");
      if (api == 8) { u32s m; if (ref::map(M.T, w, m)) w = ref::nfc(M.T, m); if (w.empty()) w = U"\u05d0"; }
      add(api, s, w);
    }
  }
  for (auto s : {"example.COM", "xn--nxasmq6b", "b\xc3\xbc" "cher.DE", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e.jp", "\xd7\x90\xd7\x91", "a\xcc\x88", ""}) for (int api = 0; api < 4; api++) add(api, s, U"");
  add(9, "", U"a_$0\u00b7\u00e9\u4e00\u200c\U00010000" + u32s(1, 0xd800));
#ifdef HAVE_INFLATE
  for (int i = 0; i < 12; i++) add(14, i % 3 ? std::string((const char*)kFixed, sizeof kFixed) : std::string((const char*)kDynamic, sizeof kDynamic), U"");
#endif
  add(5, "", U""); add(8, "", U""); add(7, "", U"");
}
// Runs f in a fresh process; false and a description if it does not end well.
template <class F>
static bool in_child_once(F f, std::string& why, unsigned limit_s, bool* timeout) {
  char err[] = "/tmp/h_init.XXXXXX";
  int fd = mkstemp(err);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(fd, 2);
    big_live = 0; big_total = 0;
    f();
    _exit(0);
  }
  int st = 0;
  bool to = false;
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (unsigned n = 0;; n++) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > (long)limit_s) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
    pause_us(n < 50 ? 100 : 1000);
  }
  bool good = !to && WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (!good) {
    std::string txt;
    lseek(fd, 0, SEEK_SET);
    char buf[6000];
    ssize_t n = read(fd, buf, sizeof buf);
    if (n > 0) txt.assign(buf, n);
    // the summary line of a sanitizer, or the first words
    size_t k = txt.find("SUMMARY:");
    std::string head = k != std::string::npos ? txt.substr(k, txt.find('\n', k) - k) + " | " : "";
    why = to ? "no answer within " + std::to_string(limit_s) + " s" : WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
    why += " " + head + txt.substr(0, 1500);
    for (char& c : why) if (c == '\n') c = '/';
  }
  close(fd);
  unlink(err);
  *timeout = to;
  return good;
}
// A hang is only reported if it happens twice.
template <class F>
static bool in_child(F f, std::string& why, unsigned limit_s, bool* timeout = nullptr) {
  bool to = false;
  bool good = in_child_once(f, why, limit_s, &to);
  if (to) { shared[0] = 0; to = false; good = in_child_once(f, why, limit_s * 2, &to); }
  if (timeout) *timeout = to;
  return good;
}
static void say(const std::string& s) {
  static std::atomic<bool> once{false};
  if (once.exchange(true)) return;
  strncpy(shared, s.c_str(), kShared / 2);
}
static int live_sequential = 1;  // buffers alive after a sequential run
struct Stats { std::atomic<uint64_t> calls, concurrent_first, winners, waited, failed_closed, right; std::atomic<int> live; std::atomic<uint64_t> used, digest; };
static Stats* stats = nullptr;

// ---------------------------------------------------------------------------------------------- C15
struct Plan { unsigned threads, delay, skew, iters, first_mix, pin; uint64_t seed; unsigned late; };
static Plan plan_of(uint64_t n) {
  Rng r(n);
  Plan p;
  static const unsigned th[] = {2, 2, 3, 4, 8, 16, 32};
  static const unsigned dl[] = {0, 0, 50, 500, 2000, 20000, 100000};
  p.threads = th[r.below(7)];
  p.delay = dl[r.below(7)];
  static const unsigned sk[] = {0, 0, 5, 50, 300};
  p.skew = sk[r.below(5)];
  p.iters = 40 + r.below(100);
  p.first_mix = r.below(4);
  p.pin = r.below(6) == 0;
  p.seed = r.next();
  if (kTsan) { p.pin = 0; p.threads = std::min(p.threads, 8u); p.delay = std::min(p.delay, 2000u); }
  if (p.pin) { p.threads = std::min(p.threads, 4u); p.iters /= 4; }
  // threads that come when the tables are there already, and have seen nothing of the others but the tables themselves
  static const unsigned lt[] = {500, 3000, 10000, 40000};
  p.late = r.chance(kTsan ? 60 : 15) ? lt[r.below(4)] : 0;
  return p;
}
static void race_first_use(const Plan& p) {
  delay_us = p.delay;
  if (p.pin) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(sched_getcpu(), &s); sched_setaffinity(0, sizeof s, &s); }
  std::atomic<unsigned> ready{0};
  std::atomic<bool> go{false};
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < p.threads; t++)
    ts.emplace_back([&, t] {
      Rng r(p.seed + t);
      std::vector<const Op*> mine;
      std::vector<size_t> idx;
      for (unsigned i = 0; i < p.iters; i++) {
        size_t k = r.below(corpus.size());
        if (i == 0) {  // the racing call: one entry point for all, or a mix of them
          int api = p.first_mix == 0 ? (int)(p.seed % kTableApis) : (int)r.below(kTableApis);
          while (corpus[k].api != api || !needs_tables(corpus[k])) k = r.below(corpus.size());
        }
#ifdef HAVE_INFLATE
        if (i < 2 && p.seed % 8 == 3) while (corpus[k].api != 14) k = r.below(corpus.size());   // the decoder itself, first
#endif
        idx.push_back(k);
      }
      ready++;
      while (!go.load()) if (p.pin) sched_yield();
      if (p.skew) pause_us(r.below(p.skew));
      if (p.late && t) pause_us(p.late + p.late / 4 * (t % 8));   // time is all that orders these after the first
      bool during = big_live.load() == 0 || delay_us.load() == 0;
      if (during) stats->concurrent_first++;
      for (size_t i = 0; i < idx.size(); i++) {
        std::string got = perform(corpus[idx[i]]);
        stats->calls++;
        if (got != expected[idx[i]])
          say("thread " + std::to_string(t) + " of " + std::to_string(p.threads) + ", call " + std::to_string(i) + " (delay " + std::to_string(p.delay) + " us): " + api_name[corpus[idx[i]].api] + "(" + show8(corpus[idx[i]].s) + " / " + show(corpus[idx[i]].w) + ") answered " + show8(got) + " instead of " + show8(expected[idx[i]]));
      }
    });
  while (ready.load() < p.threads) sched_yield();
  go = true;
  for (auto& t : ts) t.join();
  if (big_live.load() > live_sequential) say(std::to_string(big_live.load()) + " table buffers are alive after " + std::to_string(p.threads) + " threads raced for the first use, " + std::to_string(live_sequential) + " after a sequential run");
  stats->winners += big_total.load();
}
static void c15(Ctx& x, const Case& c) {
  std::string why;
  shared[0] = 0;
  bool to = false;
  Plan p = plan_of(c.n);
  if (c.kind == "slow") { p.threads = 4; p.delay = 3000000; p.skew = 0; p.iters = 20; p.pin = 0; p.late = 0; }
  auto describe = [&] { return std::to_string(p.threads) + " threads, " + std::to_string(p.delay) + " us in the table allocation, skew " + std::to_string(p.skew) + " us" + (p.pin ? ", one CPU" : "") + (p.late ? ", others " + std::to_string(p.late) + " us later" : ""); };
  x.nontrivial(describe() + std::to_string(c.n));
  x.sample(describe());
  x.count("threads raced", p.threads);
  if (p.late) x.count("threads that came late", p.threads - 1);
  bool good = in_child([&] {
    race_first_use(p);
    if (shared[0]) _exit(0);
  }, why, 60, &to);
  if (shared[0]) { x.violation("wrong answer", std::string(shared)); return; }
  if (to) { x.violation("hang", describe() + ": " + why); return; }
  if (!good) { x.violation(why.find("ThreadSanitizer: data race") != std::string::npos ? "data race" : "crash", describe() + ": " + why); return; }
}

// ---------------------------------------------------------------------------------------------- C16
static void judge(const char* phase, bool must_work, bool fixed_only = false, size_t start = 0) {
  for (size_t j = 0; j < corpus.size(); j++) {
    size_t i = (j + start) % corpus.size();
    const Op& o = corpus[i];
    if (fixed_only && needs_tables(o)) continue;
    std::string got = perform(o);
    stats->calls++;
    if (got == expected[i]) { stats->right++; continue; }
    bool closed = needs_tables(o) && fails_closed(o, got);
    if (o.api == 9 && got.size() == expected[i].size()) {  // may say no
      closed = true;
      for (size_t k = 0; k < got.size(); k++) if (got[k] != expected[i][k] && got[k] == '1') closed = false;
    }
    if (o.api == 2 || o.api == 3) {  // label by label: decoded or kept
      std::string body = o.api == 3 ? got.substr(got.empty() ? 0 : 1) : got, want = o.api == 3 ? expected[i].substr(1) : expected[i];
      auto a = ref::split(body), b = ref::split(want), k = ref::split(o.s);
      bool each = a.size() == b.size() && a.size() == k.size() && (o.api == 2 || (!got.empty() && got[0] == '1'));
      for (size_t j = 0; each && j < a.size(); j++) each = a[j] == b[j] || a[j] == k[j];
      closed = closed || each;
    }
    if (closed && !must_work) { stats->failed_closed++; continue; }
    say(std::string(phase) + ": " + api_name[o.api] + "(" + show8(o.s) + " / " + show(o.w) + ") answered " + show8(got) + "; the right answer is " + show8(expected[i]));
    return;
  }
}
// Everything the tables say, as far as calls on one to three code points show it.
static uint64_t digest_of_all() {
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; };
  auto mixs = [&](const u32s& s) { mix(s.size()); for (char32_t c : s) mix(c); };
  u32s w;
  for (char32_t c = 0; c < 0x110000; c++) {
    if (c == 0x40000) c = 0xe0000;
    mix(ai::map(u32s(1, c), w)); mixs(w);
    w.assign(1, c); w += U'\u0323'; w += U'\u0301';
    mix(ai::normalize(w)); mixs(w);
    for (char32_t second : {U'\u0301', U'\u3099', U'\u0307', U'\u0653', U'\u09be'}) { w.assign({c, second}); ai::normalize(w); mixs(w); }
    w.assign({U'\u0300', c}); ai::normalize(w); mixs(w);
    w.assign({U'\u0597', c, U'\u1dfa'}); ai::normalize(w); mixs(w);
    mix(ai::is_label_valid(u32s(1, c))); mix(ai::is_label_valid(u32s{U'\u05d0', c, U'\u05d0'})); mix(ai::is_label_valid(u32s{U'a', c, U'1', U'\u05d0'}));
    mix(ai::valid_name_code_point(c, true)); mix(ai::valid_name_code_point(c, false));
  }
  return h;
}
static uint64_t good_digest = 0;
#ifdef HAVE_BLOB
static const blob::Read* genuine = nullptr;
// A damaged stream that is well formed and gives as many bytes: edits of literals, alone or so combined that part of a
// checksum stays as it was. Empty when the data offers none.
static std::vector<uint8_t> craft(uint64_t n, std::string& what) {
  namespace tb = ai::table_blob;
  if (!genuine || !genuine->ok || genuine->lits.size() < 200) return {};
  const blob::Read& g = *genuine;
  Rng r(n * 31 + 7);
  std::vector<blob::Edit> es;
  blob::Edit e;
  unsigned style = r.below(10);
  const size_t lits = g.lits.size();
  auto pick = [&](size_t from, size_t to) { for (int i = 0; i < 50; i++) if (blob::other(g, from + r.below(to - from), r, e)) { es.push_back(e); return true; } return false; };
  static const uint32_t masks[] = {0xffff, 0xffff0000, 0xff, 0xff000000, 0x7fffffff, 0xfffffffe, 0xff00, 0xff0000, 0xffffff, 0xffffff00};
  uint32_t mask = 0;
  if (style == 0) { for (size_t k = lits; k-- && es.empty();) if (r.chance(50) && blob::other(g, k, r, e)) es.push_back(e); what = "one of the last literals changed"; }
  else if (style == 1) { for (size_t k = 0; k < lits && es.empty(); k++) if (r.chance(50) && blob::other(g, k, r, e)) es.push_back(e); what = "one of the first literals changed"; }
  else if (style <= 3) { pick(0, lits); what = "one literal changed"; }
  else if (style == 4) {  // the final block ends early: fewer bytes
    std::vector<uint8_t> s(tb::compressed, tb::compressed + tb::compressed_size);
    size_t k = lits - 1 - r.below(r.chance(50) ? 3 : 200);
    if (g.lits[k].out < g.last_block_from) return {};
    blob::Code end = g.codes[g.lits[k].block][256];
    if (g.lits[k].bit + end.len > s.size() * 8) return {};
    blob::put(s, g.lits[k].bit, end);
    what = "the stream ends at byte " + std::to_string(g.lits[k].out);
    return s;
  } else {
    std::vector<blob::Edit> pool;
    std::map<uint32_t, bool> used;
    size_t a = 0, z = lits;
    if (r.chance(40)) { a = r.below(lits - 150); z = a + 150; }
    for (int i = 0; i < 400 && pool.size() < 40; i++) {
      es.clear();
      if (pick(a, z) && !used[es[0].lit]) { used[es[0].lit] = true; pool.push_back(es[0]); }
    }
    es.clear();
    std::vector<uint32_t> sig;
    const bool words = style == 9;   // the sum without carry of the 32-bit words, otherwise parts of the CRC-32
    auto sign = [&](const std::vector<uint8_t>& o) {
      if (!words) return blob::crc(o.data(), o.size());
      uint32_t v = 0;
      for (size_t i = 0; i < o.size(); i++) v ^= (uint32_t)o[i] << 8 * (i & 3);
      return v;
    };
    const uint32_t base = sign(g.out);
    for (auto& p : pool) sig.push_back(sign(blob::output(g, {p})) ^ base);
    mask = words ? ~0u : masks[r.below(10)];
    es = blob::cancel(pool, sig, mask);
    char b[80];
    snprintf(b, sizeof b, "%zu literals changed, %s & %08x kept", es.size(), words ? "sum of words" : "CRC-32", mask);
    what = b;
  }
  if (es.empty()) return {};
  auto s = blob::apply(g, tb::compressed, tb::compressed_size, es);
  auto back = blob::read(s.data(), s.size(), g.out.size() + 1000);
  if (!back.ok || back.out == g.out || back.out.size() != g.out.size() || blob::crc(back.out.data(), back.out.size()) == blob::crc(g.out.data(), g.out.size())) return {};
  return s;
}
#endif
static void c16(Ctx& x, const Case& c) {
  std::string why;
  shared[0] = 0;
  bool to = false;
  bool oom = c.kind == "oom", threads = c.n & 1;
  std::string what = c.kind;
  Rng r(c.n);
  std::vector<std::pair<size_t, uint8_t>> edits;
#ifdef HAVE_BLOB
  if (c.kind == "corrupt") {
    size_t size = ai::table_blob::compressed_size;
    int style = r.below(7);
    size_t at = r.below(size);
    if (style == 0) edits.push_back({at, (uint8_t)(1 << r.below(8))});
    if (style == 1) edits.push_back({at, (uint8_t)(1 + r.below(255))});
    if (style == 2) for (int i = 0; i < 4; i++) edits.push_back({r.below(size), (uint8_t)(1 + r.below(255))});
    if (style == 3) for (size_t i = at; i < std::min(size, at + 64); i++) edits.push_back({i, (uint8_t)r.below(256)});
    if (style == 4) edits.push_back({r.below(16), (uint8_t)(1 << r.below(8))});                 // first block header
    if (style == 5) edits.push_back({size - 1 - r.below(8), (uint8_t)(1 << r.below(8))});       // last bits
    if (style == 6) { size_t n = 1 + r.below(3); for (size_t i = at; i < size; i += size / n + 1) edits.push_back({i, (uint8_t)(1 << r.below(8))}); }
    what += " at " + std::to_string(edits[0].first) + " (" + std::to_string(edits.size()) + " bytes)";
  }
  if (c.kind == "crafted") {
    std::string how;
    auto s = craft(c.n, how);
    if (s.empty()) { x.count("crafted damage not possible"); return; }
    what = how;
    for (size_t i = 0; i < s.size(); i++) if (s[i] != ai::table_blob::compressed[i]) edits.push_back({i, (uint8_t)(s[i] ^ ai::table_blob::compressed[i])});
  }
#endif
  x.count(c.kind + (threads ? " with threads" : ""));
  x.nontrivial(what + std::to_string(c.n));
  x.sample(what);
  uint64_t before = stats->failed_closed;
  bool good = in_child([&] {
    if (oom) fail_big = true;
#ifdef HAVE_BLOB
    if (!edits.empty()) {
      uint8_t* p = const_cast<uint8_t*>(ai::table_blob::compressed);
      uintptr_t a = (uintptr_t)p & ~4095ull, b = ((uintptr_t)p + ai::table_blob::compressed_size + 4095) & ~4095ull;
      if (mprotect((void*)a, b - a, PROT_READ | PROT_WRITE)) { say("mprotect"); _exit(0); }
      volatile uint8_t* v = p;
      for (auto& e : edits) v[e.first] = v[e.first] ^ e.second;
    }
#endif
    if (r.below(2)) judge("no tables yet", true, true);
    if (r.below(3)) judge("during a failing initialization", false, false, r.below(corpus.size()));   // any call may be the first
    if (threads) {
      delay_us = r.below(2) ? 2000 : 0;
      std::vector<std::thread> ts;
      std::atomic<bool> go{false};
      for (int t = 0; t < 4; t++) ts.emplace_back([&, t] { while (!go.load()) sched_yield(); judge("after a failed initialization", false, false, t * 97); });
      go = true;
      for (auto& t : ts) t.join();
    }
    judge("after a failed initialization", false);
    int live = big_live.load();
    if (live > live_sequential) say(std::to_string(live) + " table buffers alive, " + std::to_string(live_sequential) + " after a good initialization");
    if (stats->failed_closed > before && live != 0) say("the table buffer is leaked by a failed initialization");
    if (oom) { fail_big = false; judge("after a failed initialization, with memory back", false); }
    judge("what needs no tables", true, true);
    if (c.kind == "crafted" && !shared[0]) {  // refused, or as good as the genuine tables
      u32s w;
      if (ai::map(U"a", w)) { if (stats->used++ < 3 && digest_of_all() != good_digest) say("the damaged tables are used: calls on single code points answer differently"); }
    }
  }, why, 60, &to);
  if (stats->failed_closed > before) x.count("initialization refused"); else x.count("initialization unaffected");
  if (shared[0]) { x.violation(oom ? "out of memory" : "corrupt tables", what + ": " + shared); return; }
  if (to) { x.violation("hang", what + ": " + why); return; }
  if (!good) { x.violation("crash", what + ": " + why); return; }
}
// A stuck initializer must not hang the others forever (thorough).
static void stuck(Ctx& x) {
  std::string why;
  shared[0] = 0;
  bool to = false;
  bool good = in_child([&] {
    delay_us = 400 * 1000000u;
    std::atomic<int> back{0};
    std::thread a([&] { perform(corpus[0]); });
    pause_us(200000);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&] { judge("while the initializer is stuck", false); back++; });
    for (auto& t : ts) t.join();
    _exit(0);
  }, why, 300, &to);
  x.evaluations++;
  x.count("stuck initializer");
  static Case c;
  c.kind = "stuck"; c.unit = 0;
  x.cur = &c;
  if (shared[0]) x.violation("stuck", shared);
  else if (to) x.violation("hang", "a thread stuck in the initialization hangs the others for 300 s");
  else if (!good) x.violation("crash", why);
  x.cur = nullptr;
}

static void generate(Ctx& x) {
  Rng r(x.seed * 7777 + x.shard);
  if (x.prop == "C15") {
    uint64_t n = kTsan ? x.budget(400, 6000) : x.budget(1600, 40000);
    for (uint64_t i = 0; i < n && x.nviols < 5; i++) { Case c; c.kind = "race"; c.unit = 0; c.n = r.next(); x.run(c); }
    if (!kTsan && x.shard % 2 == 0) { Case c; c.kind = "slow"; c.unit = 0; c.n = r.next(); x.run(c); x.count("initializations that take seconds"); }
    x.count("calls observed", stats->calls); x.count("first calls raced", stats->concurrent_first); x.count("initializations", stats->winners);
    return;
  }
  uint64_t n = x.budget(1600, 40000);
  for (uint64_t i = 0; i < n; i++) {
    Case c; c.unit = 0; c.n = r.next();
#ifdef HAVE_BLOB
    c.kind = i % 16 == 0 ? "oom" : i % 8 == 1 ? "crafted" : "corrupt";
#else
    c.kind = "oom";
    if (i > 40) break;
#endif
    time_t t0 = time(nullptr);
    x.run(c);
    if (x.nviols >= 5 || (x.nviols && time(nullptr) - t0 > 30)) break;   // enough is known
  }
  x.count("calls observed", stats->calls); x.count("answers refused", stats->failed_closed); x.count("answers right", stats->right);
  if (stats->used) x.count("crafted damage not refused", stats->used);
  if (x.thorough() && x.shard == 0) stuck(x);
}

int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  Ctx x;
  for (int i = 1; i + 1 < argc; i += 2) { if (!strcmp(argv[i], "--prop")) x.prop = argv[i + 1]; if (!strcmp(argv[i], "--oracle")) x.oracle = argv[i + 1]; if (!strcmp(argv[i], "--seed")) x.seed = strtoull(argv[i + 1], nullptr, 10); }
  {
    Models M(x.oracle);
    make_corpus(M, x.seed);
  }
  shared = (char*)mmap(nullptr, kShared, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  stats = new (shared + kShared / 2) Stats{};
  big_live = 0; big_total = 0;
  // the sequential answers, from a process of its own
  char* ans = (char*)mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string why;
  bool good = in_child([&] {
    std::string all;
    for (auto& o : corpus) { std::string a = perform(o); uint32_t n = a.size(); all.append((char*)&n, 4); all += a; }
    stats->live = big_live.load();
    if (all.size() < (4u << 20)) memcpy(ans, all.data(), all.size());
  }, why, 120);
  x.check = x.prop == "C15" ? c15 : c16;
  if (!good) {
    static Case c; c.kind = "sequential"; c.unit = 0; x.cur = &c;
    x.violation("crash", "the sequential run of the corpus failed: " + why);
    x.write();
    return 0;
  }
  live_sequential = stats->live;
#ifdef HAVE_BLOB
  if (x.prop == "C16") {
    static blob::Read g = blob::read(ai::table_blob::compressed, ai::table_blob::compressed_size, 4u << 20);
    genuine = &g;
    if (!in_child([&] { stats->digest = digest_of_all(); }, why, 300)) genuine = nullptr;
    good_digest = stats->digest;
  }
#endif
  for (size_t i = 0, p = 0; i < corpus.size(); i++) { uint32_t n; memcpy(&n, ans + p, 4); p += 4; expected.emplace_back(ans + p, n); p += n; }
  return harness_main(argc, argv, x, generate);
}
