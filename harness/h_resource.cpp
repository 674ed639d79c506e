// C21: work (edges executed in the library, counted by -fsanitize-coverage=trace-pc-guard callbacks) and heap
// high-water mark of every call, on inputs made to be expensive, over a range of sizes.
#include "common.hpp"
#include "idna.h"
#include <memory>
#include <new>

using ref::u32s;
namespace ai = ada::idna;

static uint64_t steps = 0, step_limit = ~0ull;
static bool armed = false;
static void runaway();
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
// The lowest stack address an instrumented function was seen at: what a call takes from the stack of its thread.
static uintptr_t stack_low = 0;
static inline void depth() { uintptr_t here = (uintptr_t)__builtin_frame_address(0); if (here < stack_low) stack_low = here; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { depth(); if (++steps > step_limit) runaway(); }
// Bytes moved, filled, searched and compared by the C library, also on behalf of libstdc++: 16 of them count as a step.
#if defined(__x86_64__) && defined(COUNT_BYTES)
static inline void touched(size_t n) { if ((steps += n / 16) > step_limit) runaway(); }
extern "C" {
void* my_memcpy(void* d, const void* s, size_t n) asm("memcpy");
void* my_memcpy(void* d, const void* s, size_t n) { touched(n); void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* my_memmove(void* d, const void* s, size_t n) asm("memmove");
void* my_memmove(void* d, const void* s, size_t n) {
  touched(n);
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
  const char* q = (const char*)s + n;
  char* e = (char*)d + n;
  for (; n >= 8; n -= 8) { uint64_t v; q -= 8; e -= 8; asm volatile("mov (%1), %0" : "=r"(v) : "r"(q) : "memory"); asm volatile("mov %0, (%1)" : : "r"(v), "r"(e) : "memory"); }
  for (; n; n--) { q--; e--; *(volatile char*)e = *q; }
  return r;
}
void* my_memset(void* d, int c, size_t n) asm("memset");
void* my_memset(void* d, int c, size_t n) { touched(n); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void* my_memchr(const void* s, int c, size_t n) asm("memchr");
void* my_memchr(const void* s, int c, size_t n) {
  const volatile unsigned char* p = (const unsigned char*)s;
  size_t i = 0;
  while (i < n && p[i] != (unsigned char)c) i++;
  touched(i);
  return i < n ? (void*)(p + i) : nullptr;
}
int my_memcmp(const void* a, const void* b, size_t n) asm("memcmp");
int my_memcmp(const void* a, const void* b, size_t n) {
  const volatile unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  size_t i = 0;
  while (i < n && p[i] == q[i]) i++;
  touched(i);
  return i < n ? p[i] < q[i] ? -1 : 1 : 0;
}
}
#endif
static size_t live = 0, peak = 0, base_live = 0;
#ifdef COUNT_MALLOC
// glibc: every block, also of the C library's own functions, by the size the allocator gave it
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
size_t malloc_usable_size(void*);
static void* got(void* p) { if (p && (live += malloc_usable_size(p)) > peak) peak = live; return p; }
void* malloc(size_t n) noexcept { return got(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) noexcept { return got(__libc_calloc(n, m)); }
void* memalign(size_t a, size_t n) noexcept { return got(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) noexcept { return got(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { void* q = got(__libc_memalign(a, n)); if (!q) return 12; *p = q; return 0; }
void* realloc(void* p, size_t n) noexcept { size_t o = p ? malloc_usable_size(p) : 0; void* q = __libc_realloc(p, n); if (q || !n) live -= o; return got(q); }
void free(void* p) noexcept { if (p) live -= malloc_usable_size(p); __libc_free(p); }
}
#else
struct Hdr { size_t n, pad; };
static void* take(size_t n) noexcept {
  Hdr* h = (Hdr*)malloc(n + sizeof(Hdr));
  if (!h) return nullptr;
  h->n = n;
  live += n;
  if (live > peak) peak = live;
  return h + 1;
}
static void give(void* p) noexcept { if (p) { Hdr* h = (Hdr*)p - 1; live -= h->n; free(h); } }
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }
#endif

static const char* kApi[] = {"to_ascii", "to_unicode", "map", "normalize", "is_already_nfc", "is_label_valid", "punycode_to_utf32", "utf32_to_punycode", "verify_punycode", "contains_forbidden_domain_code_point", "utf8_to_utf32", "utf32_to_utf8"};
struct Cost { uint64_t steps; size_t heap, outsize, stack; };
static const size_t kStack = 192 << 10;   // what a small thread's stack has room for; the unchanged code takes less than 1 KiB
static size_t worst_stack = 0;
static const Case* current;
static Ctx* ctx;
static void runaway() {
  uint64_t s = steps;
  step_limit = ~0ull;
  ctx->violation("runaway", std::string(kApi[current->n % 16]) + ", input '" + current->kind + "' of " + std::to_string(current->a.size()) + " bytes: stopped after " + std::to_string(s) + " steps");
  ctx->write();
  _exit(0);
}
static Cost measure(int api, const std::string& s, const u32s& w) {
  std::string o;
  u32s ow;
  std::vector<char32_t> b32(api == 10 ? s.size() : 0);
  std::vector<char> b8(api == 11 ? w.size() * 4 : 0);
  if (api == 3) ow = w;
  size_t n = s.size() + w.size() * 4;
  step_limit = 3000ull * (n + 100) * (n + 100) + 100000000ull;
  base_live = peak = live;
  const uintptr_t stack_top = stack_low = (uintptr_t)__builtin_frame_address(0);
  steps = 0;
  switch (api) {
    case 0: (void)ai::to_ascii(s, o); break;
    case 1: (void)ai::to_unicode(s, o); break;
    case 2: (void)ai::map(w, ow); break;
    case 3: (void)ai::normalize(ow); break;
    case 4: (void)ai::is_already_nfc(w); break;
    case 5: (void)ai::is_label_valid(w); break;
    case 6: (void)ai::punycode_to_utf32(s, ow); break;
    case 7: (void)ai::utf32_to_punycode(w, o); break;
    case 8: (void)ai::verify_punycode(s); break;
    case 9: (void)ai::contains_forbidden_domain_code_point(s); break;
    case 10: (void)ai::utf8_to_utf32(s.data(), s.size(), b32.data()); break;
    case 11: (void)ai::utf32_to_utf8(w.data(), w.size(), b8.data()); break;
  }
  Cost c{steps, peak - base_live, o.size() + ow.size() * 4, stack_top - stack_low};
  step_limit = ~0ull;
  worst_stack = std::max(worst_stack, c.stack);
  if (c.stack > kStack) ctx->violation("stack", std::string(kApi[api]) + " of " + std::to_string(n) + " bytes takes " + std::to_string(c.stack) + " bytes of its thread's stack");
  return c;
}

// Bounds. The constants stand well above what the unchanged code needs (see DESIGN.md) and below what any bound that
// depends on the input in a worse way would give.
static double worst_heap = 0, worst_short = 0, worst_ascii = 0, worst_quad = 0, worst_ratio = 0;

static std::unique_ptr<Models> M;
// kind: pattern; a: one period in UTF-8 (or bytes); n = api + 16 * size index; b: separator behaviour
struct Pattern { const char* name; std::string unit; bool short_labels, ascii; };
static std::string fill(const Case& c, size_t n) {
  // c.a: head \0 unit \0 tail
  size_t i = c.a.find('\1'), j = c.a.rfind('\1');
  std::string head = c.a.substr(0, i), unit = c.a.substr(i + 1, j - i - 1), tail = c.a.substr(j + 1), s = head;
  if (unit.empty()) unit = "a";
  // \2 to \6 in the period: something else in each repetition
  for (uint64_t k = 1;; k++) {
    std::string u;
    const uint64_t h = k * 0x9e3779b97f4a7c15ull >> 20;
    for (char ch : unit) {
      if (ch == '\2') for (uint64_t v = k, m = 0; m < 3; v /= 26, m++) u += (char)('a' + v % 26);
      else if (ch == '\3') ref::utf8_put(u, (char32_t)(0x4e00 + k % 20000));
      else if (ch == '\4') ref::utf8_put(u, (char32_t)(0x5d0 + h % 27)), ref::utf8_put(u, (char32_t)(0x5d0 + h / 27 % 27)), ref::utf8_put(u, (char32_t)(0x5d0 + h / 729 % 27));
      else if (ch == '\5') ref::utf8_put(u, (char32_t)(0x300 + h % 0x2d));
      else if (ch == '\6') { u32s l = {U'\u00fc'}; for (uint64_t v = k, m = 0; m < 3; v /= 26, m++) l += (char32_t)('a' + v % 26); std::string q; ref::puny_encode(l, q); u += "xn--" + q; }
      else u += ch;
    }
    if (s.size() + u.size() + tail.size() > n) return s + tail;
    s += u;
  }
}
static void c21(Ctx& x, const Case& c) {
  current = &c; ctx = &x;
  int api = (int)(c.n % 16);
  if (c.kind == "over") {
    std::string s = fill(c, ref::kLimit + 1 + c.n / 16);
    if (s.size() <= ref::kLimit) s.append(ref::kLimit + 1 - s.size(), 'a');
    Cost k = measure(api, s, U"");
    x.count("calls over the limit");
    x.nontrivial(c.a + std::to_string(c.n));
    auto d = [&] { return std::string(kApi[api]) + " of " + std::to_string(s.size()) + " bytes (over the limit): " + std::to_string(k.steps) + " steps, " + std::to_string(k.heap) + " bytes of heap"; };
    if (k.steps > 2000 + s.size() / 16) x.violation("over the limit: work", d());
    if (k.heap > 2 * s.size() + 4096) x.violation("over the limit: memory", d());
    return;
  }
  if (c.kind == "many") {   // what is held between calls does not grow with their number
    std::string o, first;
    size_t held[3] = {0, 0, 0};
    const uint64_t calls = c.n / 16 / 3;
    Rng r(c.n * 31 + 7);
    step_limit = ~0ull;
    for (int part = 0; part < 3; part++) {
      for (uint64_t k = 0; k < calls; k++) {
        std::string s;
        u32s w;
        for (int j = 0; j < 8; j++) w += j == 3 ? U'\u00fc' : j == 5 ? U'\u3042' + (char32_t)r.below(80) : U'a' + (char32_t)r.below(26);
        s = api == 0 ? ref::utf8(w) + ".example" : "";
        if (api == 1 || api == 6 || api == 8) { ref::puny_encode(w, s); if (api == 1) s = k % 4 ? "xn--" + s : ref::utf8(w); }
        (void)measure(api, s, w);
      }
      held[part] = live;
    }
    x.count("calls whose leftovers were counted", 3 * calls);
    x.nontrivial(c.kind + std::to_string(c.n));
    if (held[1] > held[0] + 100000 && held[2] > held[1] + 100000)
      x.violation("memory kept between calls", std::string(kApi[api]) + ": after " + std::to_string(calls) + " different short calls " + std::to_string(held[0]) + " bytes are held, after twice as many " + std::to_string(held[1]) + ", after three times " + std::to_string(held[2]));
    return;
  }
  bool word_api = (api >= 2 && api <= 5) || api == 7 || api == 11;
  bool short_labels = c.b.find('s') != std::string::npos, ascii = c.b.find('a') != std::string::npos;
  uint64_t prev = 0;
  size_t prev_n = 0;
  x.nontrivial(c.kind + c.a + std::to_string(c.n));
  for (size_t n : {1024u, 4096u, 16384u}) {
    if (!short_labels && !ascii && n > 4096 && !x.thorough() && c.n / 16 % 4) break;
    std::string s = fill(c, n);
    u32s w;
    if (word_api) { if (!ref::utf8_decode(s, w)) return; s.clear(); }
    size_t len = word_api ? w.size() : s.size();
    Cost k = measure(api, s, w);
    x.count(std::string("calls: ") + kApi[api]);
    x.count("steps observed", k.steps);
    auto d = [&] { return std::string(kApi[api]) + " of '" + c.kind + "' " + (word_api ? show(w.substr(0, 12)) : show8(s.substr(0, 30))) + "... (" + std::to_string(len) + "): " + std::to_string(k.steps) + " steps, " + std::to_string(k.heap) + " bytes of heap, " + std::to_string(k.stack) + " bytes of stack, " + std::to_string(k.outsize) + " bytes of output"; };
    if (n == 1024) x.sample(d());
    // the text itself, in UTF-32, mapped: what is held is a small multiple of it
    double text = 0;
    { u32s in = w, m; if (!word_api) ref::utf8_decode(s, in); for (char32_t cp : in) text += !ref::map(M->T, u32s(1, cp), m) ? 4 : 4.0 * (double)std::max<size_t>(m.size(), 1); }
    text += (double)(word_api ? 4 * len : len);
    worst_heap = std::max(worst_heap, ((double)k.heap - 4096) / text);
    if ((double)k.heap > 24.0 * text + 65536) x.violation("memory", d() + " (" + std::to_string((size_t)text) + " bytes of text)");
    worst_quad = std::max(worst_quad, (double)k.steps / ((double)len * (double)len));
    if ((double)k.steps > 20.0 * (double)len * (double)len + 1e6) x.violation("more than quadratic", d());
    if (ascii) {
      worst_ascii = std::max(worst_ascii, (double)k.steps / (double)len);
      if ((double)k.steps > 60.0 * (double)len + 20000) x.violation("ASCII: more than linear", d());
    }
    if (short_labels) {
      worst_short = std::max(worst_short, (double)k.steps / (double)len);
      if ((double)k.steps > 1000.0 * (double)len + 100000) x.violation("short labels: more than linear", d());
    }
    if (prev > 20000) {
      double grow = (double)k.steps / (double)prev, by = (double)len / (double)prev_n;
      worst_ratio = std::max(worst_ratio, grow / (by * by));
      if (grow > by * by * 2.8) x.violation("growth", d() + "; " + std::to_string(prev) + " steps at " + std::to_string(prev_n));
      // domains of short labels: linear
      if (short_labels && grow > by * 2.2) x.violation("short labels: growth", d() + "; " + std::to_string(prev) + " steps at " + std::to_string(prev_n));
    }
    prev = k.steps; prev_n = len;
  }
}
static void generate(Ctx& x) {
  Gen g(M->T, M->K, x.seed * 1000003 + x.shard * 7919 + 21, false);
  Rng& r = g.r;
  auto u8 = [](const u32s& s) { return ref::utf8(s); };
  auto pat = [&](int api, const std::string& name, const std::string& head, const std::string& unit, const std::string& tail, const char* flags, uint64_t k = 0) {
    Case c; c.kind = name; c.a = head + '\1' + unit + '\1' + tail; c.b = flags; c.n = (uint64_t)api + 16 * k; c.unit = 0;
    x.run(c);
  };
  std::string big = u8(U"\ufdfa"), marks;
  struct P { const char* name; std::string head, unit, tail; const char* flags; };
  std::vector<P> ps = {
    {"ascii", "", "a", "", "a"}, {"ascii upper", "", "ABCDEFGH", "", "a"}, {"dots", "", ".", "", "as"}, {"ascii labels", "", "abcdefghij.", "", "as"},
    {"expanding", "", big, "", ""}, {"expanding labels", "", big + ".", "", "s"}, {"ignored", "a", u8(U"\u00ad"), "b", ""}, {"dots ideographic", "", u8(U"\u3002"), "", "s"},
    {"marks ordered", "a", u8(U"\u0323\u0301"), "", ""}, {"marks disordered", "a", u8(U"\u0301\u0323"), "", ""}, {"marks equal", "a", u8(U"\u0301"), "", ""}, {"marks falling", "a", u8(U"\u0345\u0315\u0301\u0323\u0327\u05b0\u3099\u0334"), "", ""},
    {"decomposing", "", u8(U"\u1fa7"), "", ""}, {"hangul", "", u8(U"\u1100\u1161\u11a8"), "", ""}, {"hangul syllables", "", u8(U"\uac01"), "", ""},
    {"joiners", u8(U"\u0628"), u8(U"\u200c\u0628"), "", ""}, {"joiners and transparent", u8(U"\u0628"), u8(U"\u064b"), u8(U"\u200c\u0628"), ""}, {"transparent and joiners", u8(U"\u0628"), u8(U"\u064b\u200c"), u8(U"\u0628"), ""}, {"viramas", u8(U"\u0915"), u8(U"\u094d\u200d"), "", ""},
    {"rtl", "", u8(U"\u05d0"), "", ""}, {"rtl marks", u8(U"\u05d0"), u8(U"\u05b0"), "", ""}, {"rtl labels", "", u8(U"\u05d0.\u0627."), "", "s"}, {"rtl numbers", u8(U"\u05d0"), "1", "", ""},
    {"ace labels", "", "xn--nxasmq6b.", "", "s"}, {"ace labels with non-ASCII", "", "xn--nxasmq6b." + u8(U"\u00fc."), "", "s"}, {"bad ace labels", "", "xn--.", "", "s"}, {"bad ace labels 2", u8(U"\u00fc."), "xn--a.", "", "s"},
    {"long ace", "xn--", "a", "-", ""}, {"long ace digits", "xn--", "0", "", ""}, {"long ace z", "xn--", "z", "", ""}, {"long ace b", "xn--", "ba", "", ""}, {"xn", "", "xn--", "", ""}, {"hyphens", "", "-", "", "a"},
    {"cjk", "", u8(U"\u4e00\u4e8c\u4e09"), "", ""}, {"cjk spread", "", u8(U"\u4e00\u0431\u00fc\U00020000\uac00"), "", ""}, {"alternating", "", u8(U"\u00fc") + "a", "", ""}, {"alternating labels", "", u8(U"\u00fc.") + "a.", "", "s"}, {"supplementary", "", u8(U"\U00010400\U0001f600"), "", ""},
    {"malformed", "", "\xc3", "", ""}, {"malformed late", "", u8(U"\u00fc"), "\xff", ""},
  };
  for (P p : std::vector<P>{{"distinct ascii labels", "", "\2.", "", "as"}, {"distinct upper", "", "A\2Z.", "", "as"}, {"distinct ascii labels and one more", "", "\2.", u8(U"\u00fc"), "s"}, {"distinct labels", "", "\3.", "", "s"}, {"distinct longer labels", "", "\2\3\3\3\3.", "", "s"},
    {"distinct rtl labels", "", "\4.", "", "s"}, {"distinct rtl labels and numbers", "", "\4\x31.\4.", "", "s"}, {"distinct ace labels", "", "\6.", "", "s"}, {"distinct ace labels and one more", "", "\6.", u8(U"\u00fc"), "s"}, {"distinct mixed labels", "", "\6.\3.\2.", "", "s"}, {"distinct rtl and ace", "", "\4.\6.", "", "s"},
    {"distinct mapped labels", "", u8(U"\uff21") + "\2.", "", "s"}, {"distinct decomposed labels", "", "\2e" + u8(U"\u0301") + ".", "", "s"}, {"distinct bad ace labels", "", "xn--\2.", "", "s"}, {"distinct marks", "a", "\5", "", ""}, {"distinct marks in labels", "", "\2\5\5\5.", "", "s"}, {"distinct cjk", "", "\3", "", ""},
    {"distinct in a label", "", "\2\3", "", ""}, {"distinct joiners", u8(U"\u0628"), u8(U"\u200c\u0628") + "\5", "", ""}, {"distinct ascii", "", "\2", "", "a"}, {"distinct dots", "", "\3" + u8(U"\u3002"), "", "s"}}) ps.push_back(p);
  uint64_t i = 0;
  for (auto& p : ps) for (int api = 0; api < 12; api++) { if (i++ % x.shards != x.shard) continue; const char* fl = (api == 0 || api == 1 || api == 9 || api == 10) ? p.flags : ""; if (api == 6 || api == 8) { pat(api, p.name, p.head.substr(0, 4) == "xn--" ? "" : p.head, p.unit, p.tail, ""); } else pat(api, p.name, p.head, p.unit, p.tail, fl); }
  // over the limit
  for (auto& p : ps) for (int api = 0; api < 2; api++) for (uint64_t more : {0u, 100u, 100000u, 1000000u}) { if (i++ % x.shards != x.shard) continue; Case c; c.kind = "over"; c.unit = 0; c.a = p.head + '\1' + p.unit + '\1' + p.tail; c.n = (uint64_t)api + 16 * more; x.run(c); }
  for (int api = 0; api < 12; api++) { if (i++ % x.shards != x.shard) continue; Case c; c.kind = "many"; c.unit = 0; c.n = (uint64_t)api + 16 * (x.thorough() ? 600000 : 60000); x.run(c); }
  // random periods
  uint64_t n = x.budget(16000, 400000);
  for (uint64_t k = 0; k < n; k++) {
    u32s h, u, t;
    if (r.chance(40)) h = g.valid_source().substr(0, 3);
    switch (r.below(5)) { case 0: u = g.label_norm(); break; case 1: u = g.label_join(); break; case 2: u = g.label_bidi(); break; case 3: { size_t m = 1 + r.below(6); while (m--) u += r.pick(g.marks); break; } default: u = g.valid_source(); }
    if (r.chance(30)) t = g.valid_source().substr(0, 3);
    if (r.chance(15)) { std::string p; ref::puny_encode(u, p); u = g.to32("xn--" + p); }
    bool labels = r.chance(30);
    if (labels) { if (u.size() > 20) u.resize(20); u += U'.'; }
    int api = (int)r.below(12);
    pat(api, "random", u8(h), u8(u), u8(t), (labels && api < 2 && u.find(U'.') == u.size() - 1) ? "s" : "", k);
  }
  if (getenv("SHOW")) printf("worst: heap %.1f/byte, steps %.2f n^2, ascii %.1f n, short %.1f n, ratio %.2f, stack %zu\n", worst_heap, worst_quad, worst_ascii, worst_short, worst_ratio, worst_stack);
}
int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  Ctx x;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--oracle")) x.oracle = argv[i + 1];
  M = std::make_unique<Models>(x.oracle);
  x.check = c21;
  { u32s s = U"\u00fc"; (void)ai::normalize(s); std::string o; (void)ai::to_ascii("b\xc3\xbc" "cher", o); }
  if (!steps) { fprintf(stderr, "no steps were counted\n"); return 4; }
  return harness_main(argc, argv, x, generate);
}
