// Coverage-guided phase: libFuzzer drives the monitor of the harness. The library alone is instrumented; the seed corpus is
// a sample of what the harness's own generator makes; inputs are [kind][n, two bytes][payload]; mutations work on code
// points, on labels and their ACE forms, and on raw bytes.
#pragma once
extern "C" size_t LLVMFuzzerMutate(uint8_t*, size_t, size_t);
extern "C" int LLVMFuzzerRunDriver(int*, char***, int (*)(const uint8_t*, size_t));

struct Fuzz {
  static inline Ctx* x = nullptr;
  static inline uint64_t runs = 0, done = 0;
  static bool decode(const uint8_t* d, size_t n, Case& c) {
    if (n < 3 || x->kinds.empty()) return false;
    auto& k = x->kinds[d[0] % x->kinds.size()];
    c.kind = k.name; c.unit = k.unit; c.n = d[1] | d[2] << 8;
    size_t m = n - 3;
    if (k.unit == 4) m &= ~(size_t)3;
    c.a.assign((const char*)d + 3, m);
    return !x->fuzz_fix || x->fuzz_fix(c);
  }
  static int one(const uint8_t* d, size_t n) {
    Case c;
    if (!decode(d, n, c)) return -1;
    x->run1(c);
    done++;
    if (!x->viols.empty()) { finish(); fflush(nullptr); _exit(0); }
    return 0;
  }
  static void finish() { x->counters["coverage-guided executions"] += done; x->write(); }
  // lenient: what is no UTF-8 is kept out
  static bool words(const Ctx::Kind& k, const std::string& a, ref::u32s& w) {
    if (k.unit == 4) { w = unpack32(a.substr(0, a.size() & ~(size_t)3)); return true; }
    if (k.mode == 't') return ref::utf8_decode(a, w);
    if (k.mode == 'p') { bool range; return ref::puny_decode(a, w, &range).ok && !range; }
    return false;
  }
  static bool bytes(const Ctx::Kind& k, const ref::u32s& w, std::string& a) {
    if (k.unit == 4) { a = pack32(w); return true; }
    ref::u32s v;
    for (char32_t c : w) if (ref::scalar(c)) v += c;
    if (k.mode == 't') { a = ref::utf8(v); return true; }
    return ref::puny_encode(v, a).ok;
  }
  static void op(Rng& r, const Ctx::Kind& k, ref::u32s& w) {
    size_t n = w.size();
    switch (r.below(9)) {
      case 0: case 1: {
        size_t cap = n * 4 + 64;
        std::vector<uint8_t> b(cap);
        memcpy(b.data(), w.data(), n * 4);
        size_t m = LLVMFuzzerMutate(b.data(), n * 4, cap) & ~(size_t)3;
        w = unpack32(std::string((const char*)b.data(), m));
        return;
      }
      case 2: w.insert(r.below(n + 1), x->piece ? x->piece(r) : ref::u32s(1, (char32_t)r.below(0x3000))); return;
      case 3: if (n) { ref::u32s p = x->piece ? x->piece(r) : ref::u32s(1, (char32_t)r.below(0x3000)); if (!p.empty()) w[r.below(n)] = p[r.below(p.size())]; } return;
      case 4: if (n) { size_t a = r.below(n); w.erase(a, 1 + r.below(r.chance(70) ? 2 : n - a)); } return;
      case 5: if (n > 1) { size_t a = r.below(n - 1); std::swap(w[a], w[a + 1]); } return;
      case 6: if (n && n < 300) { size_t a = r.below(n); ref::u32s p = w.substr(a, 1 + r.below(r.chance(70) ? 3 : n - a)); size_t t = r.chance(30) ? 1 + r.below(8) : 1, at = r.below(n + 1); while (t--) w.insert(at, p); } return;
      case 7: if (n) { size_t a = r.below(n); w[a] += (char32_t)(r.chance(50) ? 1 : -1) * (char32_t)(1 + (r.chance(30) ? r.below(64) : 0)); } return;
      default:
        if (k.mode != 't' || !n) { if (n) std::swap(w[r.below(n)], w[r.below(n)]); return; }
        // one label to or from its ACE form
        auto ls = ref::split(w);
        size_t i = r.below(ls.size());
        ref::u32s l = ls[i];
        if (l.size() > 4 && l.compare(0, 4, U"xn--") == 0 && ref::ascii(l)) {
          bool range;
          ref::u32s o;
          if (ref::puny_decode(std::string(l.begin() + 4, l.end()), o, &range).ok && !range) ls[i] = o;
        } else {
          std::string p;
          if (ref::puny_encode(l, p).ok) ls[i] = U"xn--" + ref::u32s(p.begin(), p.end());
        }
        w.clear();
        for (size_t j = 0; j < ls.size(); j++) { if (j) w += U'.'; w += ls[j]; }
    }
  }
  static size_t mutate(uint8_t* d, size_t size, size_t max, unsigned seed) {
    Rng r(seed);
    if (size < 3 || x->kinds.empty()) { memset(d, 0, 3); return 3; }
    if (r.chance(2)) d[0] = (uint8_t)r.below(x->kinds.size());
    if (r.chance(5)) { d[1] = (uint8_t)r.below(r.chance(70) ? 20 : 256); d[2] = (uint8_t)(r.chance(80) ? 0 : r.below(256)); }
    auto& k = x->kinds[d[0] % x->kinds.size()];
    std::string a((const char*)d + 3, size - 3), b;
    ref::u32s w;
    if (k.mode == 'r' || (k.unit == 1 && r.chance(30)) || !words(k, a, w)) return 3 + LLVMFuzzerMutate(d + 3, size - 3, max - 3);
    for (size_t t = 1 + r.below(r.chance(50) ? 1 : 3); t--;) op(r, k, w);
    if (!bytes(k, w, b) || b.size() > max - 3) return 3 + LLVMFuzzerMutate(d + 3, size - 3, max - 3);
    memcpy(d + 3, b.data(), b.size());
    return 3 + b.size();
  }
  static int main(Ctx& c, const std::string& corpus, size_t max_len, std::function<void(Ctx&)> generate) {
    x = &c;
    c.collect = max_len / 2;
    double s = c.scale;
    c.scale = 0.01;
    c.probing = true;
    generate(c);
    c.probing = false;
    c.collect = 0;
    c.scale = s;
    size_t f = 0;
    for (size_t i = 0; i < c.kinds.size(); i++)
      for (auto& q : c.kinds[i].cases) {
        std::ofstream o(corpus + "/" + std::to_string(f++), std::ios::binary);
        o.put((char)i); o.put((char)(q.n & 255)); o.put((char)(q.n >> 8 & 255));
        o << q.a;
      }
    c.counters["coverage-guided seeds"] += f;
    uint64_t per = runs / c.shards + 1;
    std::vector<std::string> args = {"fuzz", "-seed=" + std::to_string(c.seed * 1009 + c.shard + 1), "-runs=" + std::to_string(per + f), "-use_value_profile=" + std::string(c.shard % 2 ? "1" : "0"), "-max_len=" + std::to_string(max_len),
                                     "-len_control=0", "-timeout=100000", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-print_final_stats=1", "-reload=0", "-handle_abrt=0", "-handle_segv=0", "-handle_bus=0", "-handle_ill=0", "-handle_fpe=0",
                                     "-artifact_prefix=" + corpus + "/../", corpus};
    std::vector<char*> av;
    for (auto& t : args) av.push_back(t.data());
    av.push_back(nullptr);
    int ac = (int)args.size();
    char** pv = av.data();
    atexit([] { if (x) finish(); });
    return LLVMFuzzerRunDriver(&ac, &pv, one);
  }
};
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t n, size_t max, unsigned seed) { return Fuzz::mutate(d, n, max, seed); }
