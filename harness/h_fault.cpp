// C17: every allocation made during a call is made to fail, one after the other (and: all from the k-th on).
#include "common.hpp"
#include "idna.h"
#include <memory>
#include <new>

using ref::u32s;
namespace ai = ada::idna;

// ---- allocation monitor -----------------------------------------------------------------------------------
static bool armed = false, persist = false;
static long countdown = -1, made = 0, failed = 0;
static long live = 0;
struct Hdr { size_t n, magic; };
// The C allocator, as the library's own code calls it (linked with --wrap)
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
static bool c_fails() { if (!armed) return false; made++; if (countdown > 0 && --countdown == 0) { failed++; if (persist) countdown = 1; return true; } return false; }
void* __wrap_malloc(size_t n) { return c_fails() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return c_fails() ? nullptr : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return c_fails() ? nullptr : __real_realloc(p, n); }
}
static void* take(size_t n) noexcept {
  if (armed) {
    made++;
    if (countdown > 0 && --countdown == 0) { failed++; if (persist) countdown = 1; return nullptr; }
  }
  Hdr* h = (Hdr*)__real_malloc(n + sizeof(Hdr));
  if (!h) return nullptr;
  h->n = n; h->magic = 0x5afe5afe5afe5afeull;
  live++;
  return h + 1;
}
static void give(void* p) noexcept {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != 0x5afe5afe5afe5afeull) { fprintf(stderr, "runtime error: freeing what was not allocated, or freed twice\n"); abort(); }
  h->magic = 0xdead;
  live--;
  free(h);
}
void* operator new(size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

static const char* kApi[] = {"to_ascii", "to_ascii(out)", "to_unicode", "to_unicode(out)", "map", "map(out)", "normalize", "is_already_nfc", "is_label_valid", "punycode_to_utf32", "utf32_to_punycode", "verify_punycode", "valid_name_code_point", "contains_forbidden_domain_code_point"};
static constexpr int kApis = 14;

// The buffers of one call: made before the call, judged after it.
struct Call {
  std::string s, o;
  u32s w, ow;
  bool ok = false;
  void run(int api) {
    switch (api) {
      case 0: o = ai::to_ascii(s); break;
      case 1: ok = ai::to_ascii(s, o); break;
      case 2: o = ai::to_unicode(s); break;
      case 3: ok = ai::to_unicode(s, o); break;
      case 4: ow = ai::map(w); break;
      case 5: ok = ai::map(w, ow); break;
      case 6: ow = w; ok = ai::normalize(ow); break;
      case 7: ok = ai::is_already_nfc(w); break;
      case 8: ok = ai::is_label_valid(w); break;
      case 9: ok = ai::punycode_to_utf32(s, ow); break;
      case 10: ok = ai::utf32_to_punycode(w, o); break;
      case 11: ok = ai::verify_punycode(s); break;
      case 12: ok = !w.empty() && ai::valid_name_code_point(w[0], false); break;
      case 13: ok = ai::contains_forbidden_domain_code_point(s); break;
    }
  }
  std::string answer(int api) const {
    // what a failed call leaves in `out` is not an answer, except where it is promised to be empty
    std::string r = ok ? "1" : "0";
    bool has = api == 0 || api == 2 || api == 4 || ok;
    if (has) r += "|" + o + "|" + pack32(ow);
    return r;
  }
};

// Calls with known answers, made after faults in other calls
struct Sentinel { int api; std::string s; u32s w; std::string want; };
static std::vector<Sentinel> sentinels;
static size_t turn = 0;

static void c17(Ctx& x, const Case& c) {
  int api = (int)(c.n % kApis);
  bool warm = (c.n / kApis) & 1;  // out buffers with room, or without
  auto fresh = [&] { Call k; if (c.unit == 4) k.w = unpack32(c.a); else { k.s = c.a; k.s.shrink_to_fit(); } if (warm) { k.o.reserve(300); k.ow.reserve(200); } if (warm && api != 9 && api != 10) { k.o = "left over"; k.ow = U"left over"; } return k; };
  std::string want;
  long n;
  {
    Call k = fresh();
    made = 0; countdown = -1; failed = 0;
    armed = true; k.run(api); armed = false;
    n = made;
    want = k.answer(api);
  }
  x.count("allocation points", (uint64_t)n);
  x.count(std::string("calls: ") + kApi[api]);
  if (n) x.nontrivial(std::to_string(api) + (warm ? "w" : "c") + c.a);
  x.sample(std::string(kApi[api]) + " with " + std::to_string(n) + " allocations: " + (c.unit == 4 ? show(unpack32(c.a)) : show8(c.a)));
  long step = n > 400 ? n / 200 : 1;
  for (int mode = 0; mode < 2; mode++)
    for (long k = 1; k <= n; k += step) {
      std::string got, what;
      long before = live, thrown = 0;
      {
        Call q = fresh();
        made = 0; countdown = k; failed = 0; persist = mode == 1;
        armed = true;
        try { q.run(api); } catch (const std::bad_alloc&) { thrown = 1; } catch (const std::exception& e) { thrown = 2; armed = false; what = e.what(); } catch (...) { thrown = 3; }
        armed = false; countdown = -1; persist = false;
        auto desc = [&] { return std::string(kApi[api]) + "(" + (c.unit == 4 ? show(unpack32(c.a)) : show8(c.a)) + "), allocation " + std::to_string(k) + " of " + std::to_string(n) + (mode ? " and all later ones" : "") + " fails: "; };
        x.count("faults injected", (uint64_t)failed);
        if (thrown == 1) x.count("bad_alloc");
        else if (thrown) { x.violation("wrong exception", desc() + "an exception other than bad_alloc " + what); return; }
        else if (failed) {
          x.count("absorbed");
          if ((got = q.answer(api)) != want) { x.violation("wrong result", desc() + "answer " + show8(got) + ", the right one is " + show8(want)); return; }
        }
        // the objects are still usable, and the same call answers right
        Call r = fresh();
        if (api != 6 && api != 9 && api != 10) { r.o = std::move(q.o); r.ow = std::move(q.ow); }
        r.run(api);
        if (r.answer(api) != want) { x.violation("afterwards", desc() + "the same call afterwards answers " + show8(r.answer(api)) + " instead of " + show8(want)); return; }
        if (!sentinels.empty() && thrown) {   // another call too
          const Sentinel& z = sentinels[turn++ % sentinels.size()];
          Call y;
          y.s = z.s; y.w = z.w;
          y.run(z.api);
          x.count("other calls after a fault");
          if (y.answer(z.api) != z.want) { x.violation("other call afterwards", desc() + kApi[z.api] + "(" + show8(z.s) + show(z.w) + ") afterwards answers " + show8(y.answer(z.api)) + " instead of " + show8(z.want)); return; }
        }
        got.clear(); got.shrink_to_fit(); what.clear(); what.shrink_to_fit();
      }
      std::string().swap(got); std::string().swap(what);
      if (live > before && !x.probing) {
        // the counters may have grown: once more, with nothing else in between
        long b = live;
        { Call q = fresh(); countdown = k; persist = mode == 1; armed = true; try { q.run(api); } catch (...) {} armed = false; countdown = -1; persist = false; }
        if (live > b) { x.violation("leak", std::string(kApi[api]) + "(" + (c.unit == 4 ? show(unpack32(c.a)) : show8(c.a)) + "): " + std::to_string(live - b) + " allocation(s) leaked when allocation " + std::to_string(k) + " fails"); return; }
      }
    }
}

static std::unique_ptr<Models> M;
static void generate(Ctx& x) {
  Gen g(M->T, M->K, x.seed * 1000003 + x.shard * 7919 + 17, false);
  Rng& r = g.r;
  for (int i = 0; i < 60; i++) {
    Sentinel z;
    z.api = i % kApis;
    z.s = g.domain(5);
    if (i % 3 == 0) { for (char32_t ch : g.label_ace()) ref::utf8_put(z.s, ch); }
    z.w = g.valid_source();
    u32s m;
    if (z.api >= 7 && r.chance(70) && ref::map(M->T, z.w, m)) z.w = ref::nfc(M->T, m);
    if (z.w.empty()) z.w = U"e\u0301";
    Call y; y.s = z.s; y.w = z.w; y.run(z.api); z.want = y.answer(z.api);
    sentinels.push_back(z);
  }
  uint64_t n = x.budget(60000, 2500000);
  for (uint64_t i = 0; i < n; i++) {
    Case c;
    c.kind = "call";
    int api = (int)(i % kApis);
    c.n = (uint64_t)api + kApis * r.below(2);
    if ((api >= 4 && api <= 8) || api == 10 || api == 12) {
      u32s w = g.valid_source(), m;
      if (r.chance(20)) while (w.size() < 60) w += g.valid_source();
      if (api >= 7 && r.chance(70) && ref::map(M->T, w, m)) w = ref::nfc(M->T, m);
      if (r.chance(5)) w += (char32_t)(r.next());
      if (w.empty()) w = U"\u00fc";
      c.a = pack32(w); c.unit = 4;
    } else if (api >= 9) { c.a = g.random_puny(); if (r.chance(50)) ref::puny_encode(g.valid_source(), c.a); }
    else if (api >= 2) { size_t k = 1 + r.below(4); while (k--) { for (char32_t ch : g.label_ace()) ref::utf8_put(c.a, ch); c.a += '.'; } if (r.chance(20)) c.a += g.domain(10); }
    else c.a = r.chance(2) ? g.long_domain(200 + r.below(2000)) : g.domain(5);
    x.run(c);
  }
}
int main(int argc, char** argv) {
  if (argc > 2 && !strcmp(argv[1], "--merge")) return merge_hashes(argv[2]);
  Ctx x;
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--oracle")) x.oracle = argv[i + 1];
  M = std::make_unique<Models>(x.oracle);
  x.check = c17;
  { u32s s = U"\u00fc"; (void)ai::normalize(s); std::string o; (void)ai::to_ascii("b\xc3\xbc" "cher", o); }
  return harness_main(argc, argv, x, generate);
}
