// Shared frame of the harnesses: cases, replay, evidence counters, violation and known-finding records.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <functional>
#include <unordered_set>

#include "gen.hpp"

inline std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
inline std::string unhex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string show(const ref::u32s& s) {
  std::string o;
  char b[16];
  size_t n = 0;
  for (char32_t c : s) {
    if (n++ == 60) { o += "..."; break; }
    if (c > 0x20 && c < 0x7f) { o += (char)c; }
    else { snprintf(b, 16, "<%X>", (unsigned)c); o += b; }
  }
  return o;
}
inline std::string show8(const std::string& s) {
  ref::u32s w;
  if (ref::utf8_decode(s, w)) return show(w);
  return "bytes:" + hex(s.substr(0, 120));
}
inline std::string pack32(const ref::u32s& s) { return std::string((const char*)s.data(), s.size() * 4); }
inline ref::u32s unpack32(const std::string& s) { ref::u32s o(s.size() / 4, 0); memcpy(o.data(), s.data(), o.size() * 4); return o; }

// One monitored execution. `unit` is the granularity at which `a` may be shortened (1 bytes, 4 UTF-32, 0 not).
struct Case {
  std::string kind, a, b;
  uint64_t n = 0;
  int unit = 1;
  std::string str() const { return kind + " " + std::to_string(unit) + " " + std::to_string(n) + " x" + hex(a) + " x" + hex(b); }
  static Case parse(const std::string& l) {
    Case c;
    std::istringstream is(l);
    std::string a, b;
    is >> c.kind >> c.unit >> c.n >> a >> b;
    c.a = unhex(a.size() ? a.substr(1) : ""); c.b = unhex(b.size() ? b.substr(1) : "");
    return c;
  }
};

struct Ctx {
  std::string prop, tier, oracle, out;
  uint64_t seed = 1;
  unsigned shard = 0, shards = 1;
  double scale = 1;
  bool quiet = false;
  std::function<void(Ctx&, const Case&)> check;
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  uint64_t distinct_overflow = 0;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  struct Viol { std::string key, detail; Case c; std::vector<Case> past; };
  std::vector<Viol> viols;
  uint64_t nviols = 0;
  struct Known { uint64_t n = 0; std::string example; };
  std::map<std::string, Known> known;
  const Case* cur = nullptr;
  // Near variants: after a case, sometimes a same-sized one that differs in one place is run at the same address, and
  // the case again, so that anything remembered from one call to the next (by address, size, ends or a weak hash) shows.
  std::function<bool(const Case&)> variant_ok;
  unsigned variant_percent = 0;
  uint64_t vstate = 0;
  Case slot;
  std::vector<Case> past;  // the cases before the current one
  bool probing = false, probe_hit = false;
  std::string probe_key;
  char* trace = nullptr;
  static constexpr size_t kTrace = 1 << 22;

  // coverage-guided phase (fuzz.hpp)
  struct Kind { std::string name; int unit; char mode; std::vector<Case> cases; uint64_t seen = 0; };
  std::vector<Kind> kinds;
  size_t collect = 0;                                  // collecting seeds of up to so many bytes, not running
  std::function<char(const std::string&)> fuzz_mode;   // of a kind: t UTF-8 text, p punycode, r raw bytes
  std::function<bool(Case&)> fuzz_fix;                 // completes a fuzzed case; false: not one
  std::function<ref::u32s(Rng&)> piece;                // a piece of text to insert

  bool thorough() const { return tier == "thorough"; }
  uint64_t budget(uint64_t quick_total, uint64_t thorough_total = 0) const {
    uint64_t n = thorough() ? (thorough_total ? thorough_total : quick_total * 10) : quick_total;
    n = (uint64_t)(n * scale);
    return n / shards + 1;
  }
  void violation(const std::string& key, const std::string& detail) {
    if (probing) { if (key == probe_key) probe_hit = true; return; }
    nviols++;
    if (viols.size() < 12) {
      for (auto& v : viols) if (v.key == key && viols.size() >= 4) return;
      viols.push_back({key, detail, cur ? *cur : Case{}, past});
    }
  }
  void finding(const std::string& id, const std::string& detail) {
    if (probing) return;
    auto& k = known[id];
    if (!k.n++ ) k.example = detail;
  }
  void count(const std::string& k, uint64_t n = 1) { if (!probing) counters[k] += n; }
  // a distinct non-trivial case, by the hash of what makes it one
  void nontrivial(const std::string& s) {
    if (probing) return;
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 29;
    if (distinct.size() < 6000000) distinct.insert(h); else distinct_overflow++;
  }
  void sample(const std::string& s) { if (!probing && samples.size() < 6 && (evaluations % 97 == 1 || samples.size() < 2)) samples.push_back(s); }
  uint64_t vrand(uint64_t n) {
    vstate += 0x9e3779b97f4a7c15ull;
    uint64_t z = vstate;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (z ^ (z >> 31)) % n;
  }
  bool vary(const Case& c, Case& v) {
    size_t u = c.unit, n = u ? c.a.size() / u : 0;
    if (n < 1) return false;
    v = c;
    auto get = [&](size_t i) { uint32_t w = 0; if (u == 4) memcpy(&w, &v.a[i * 4], 4); else w = (unsigned char)v.a[i]; return w; };
    auto put = [&](size_t i, uint32_t w) { if (u == 4) memcpy(&v.a[i * 4], &w, 4); else v.a[i] = (char)w; };
    size_t i = vrand(n);
    for (size_t k = 0; k < n && get(i) >= 0x80 && vrand(3); k++) i = (i + 1) % n;
    uint32_t w = get(i);
    switch (vrand(4)) {
      case 0: { size_t j = (i + 1) % n; put(i, get(j)); put(j, w); break; }
      case 1: put(i, w < 0x80 ? 'a' + (uint32_t)vrand(26) : u == 4 ? w + 1 : 0x80 + (w + 1) % 0x40); break;
      case 2: if (w >= 0x80 && u == 1) return false; put(i, w < 0x80 && w != '.' ? w ^ 0x20 : w - 1); break;
      default: { size_t j = vrand(n); if (u == 1 && (w >= 0x80 || get(j) >= 0x80)) return false; put(i, get(j)); put(j, w); }
    }
    return v.a != c.a && (!variant_ok || variant_ok(v));
  }
  void gather(const Case& c) {
    if (c.a.size() > collect) return;
    size_t k = 0;
    while (k < kinds.size() && (kinds[k].name != c.kind || kinds[k].unit != (c.unit ? c.unit : 1))) k++;
    if (k == kinds.size()) {
      if (k == 200) return;
      kinds.push_back({c.kind, c.unit ? c.unit : 1, fuzz_mode ? fuzz_mode(c.kind) : 'r', {}});
    }
    auto& q = kinds[k];
    if (q.cases.size() < 60) q.cases.push_back(c);
    else { uint64_t j = vrand(q.seen + 1); if (j < 60) q.cases[j] = c; }
    q.seen++;
  }
  void run(const Case& c) {
    if (collect) { gather(c); return; }
    run1(c);
    if (!variant_percent || !c.unit || vrand(100) >= variant_percent) return;
    Case v;
    if (!vary(c, v)) return;
    v.kind = c.kind;
    run1(v);
    count("near variants at the same address");
    run1(c);
  }
  void run1(const Case& given) {
    if (given.a.size() > slot.a.capacity()) slot.a.reserve(given.a.size() * 2 + 64);
    slot.kind = given.kind; slot.b = given.b; slot.unit = given.unit; slot.n = given.n;
    slot.a.assign(given.a);
    const Case& c = slot;
    run0(c);
    if (variant_percent && c.a.size() < 4000) {
      if (past.size() >= 3) past.erase(past.begin());
      past.push_back(given);
    }
  }
  void run0(const Case& c) {
    cur = &c;
    if (trace) {
      std::string s = c.a.size() < 1000000 ? c.str() : std::string("long");
      size_t n = std::min(s.size(), kTrace - 16);
      memcpy(trace + 8, s.data(), n);
      memcpy(trace, &n, 8);
    }
    evaluations++;
    size_t before = viols.size();
    check(*this, c);
    if (viols.size() > before) shrink(before);
    cur = nullptr;
  }
  void shrink(size_t idx) {
    if (probing) return;
    Case best = viols[idx].c;
    if (!best.unit || best.a.size() > 4000) return;
    probing = true;
    probe_key = viols[idx].key;
    size_t u = best.unit;
    for (size_t len = best.a.size() / u / 2; len >= 1; len /= 2) {
      for (size_t p = 0; p + len <= best.a.size() / u;) {
        Case t = best;
        t.a.erase(p * u, len * u);
        probe_hit = false;
        check(*this, t);
        if (probe_hit) best = t; else p += len;
      }
    }
    probing = false;
    viols[idx].c = best;
    // describe the short case
    auto keep = viols; auto kn = known; auto nv = nviols;
    viols.clear();
    cur = &best;
    check(*this, best);
    std::string d = viols.empty() ? keep[idx].detail : viols[0].detail;
    viols = keep; known = kn; nviols = nv;
    viols[idx].detail = d;
  }
  void write() {
    std::ofstream f(out);
    f << "{\"evaluations\":" << evaluations << ",\"counters\":{";
    bool first = true;
    for (auto& p : counters) { f << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
    f << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << jstr(samples[i]);
    f << "],\"known\":{";
    first = true;
    for (auto& p : known) { f << (first ? "" : ",") << jstr(p.first) << ":{\"n\":" << p.second.n << ",\"example\":" << jstr(p.second.example) << "}"; first = false; }
    f << "},\"nviolations\":" << nviols << ",\"violations\":[";
    for (size_t i = 0; i < viols.size(); i++) f << (i ? "," : "") << "{\"key\":" << jstr(viols[i].key) << ",\"detail\":" << jstr(viols[i].detail) << ",\"case\":" << jstr(viols[i].c.str()) << ",\"past\":" << jstr([&] { std::string p; for (auto& q : viols[i].past) p += q.str() + "\n"; return p; }()) << "}";
    f << "],\"distinct\":" << distinct.size() << "}\n";
    f.close();
    // the hashes themselves, so that shards can be united
    std::ofstream g(out + ".h", std::ios::binary);
    for (uint64_t h : distinct) g.write((const char*)&h, 8);
  }
};

// The two models: what must hold, and what the pinned data tables are known to give instead.
struct Models {
  ref::Ucd T, K;
  std::string dir;
  std::map<unsigned, ref::Ucd> part;
  explicit Models(const std::string& d) : dir(d) {
    T.load(d + "/ucd17.txt", false, 0);
    K = T;
    K.load(d + "/stale.txt", true, ref::DEV_ALL);
  }
  const ref::Ucd& with(unsigned dev) {
    if ((dev & ref::DEV_ALL) == ref::DEV_ALL) return K;
    auto it = part.find(dev);
    if (it != part.end()) return it->second;
    ref::Ucd u = T;
    u.load(dir + "/stale.txt", true, dev);
    return part.emplace(dev, std::move(u)).first->second;
  }
  static const char* id(unsigned bit) {
    switch (bit) {
      case ref::DEV_BIDI: return "K1";
      case ref::DEV_JOIN: return "K2";
      case ref::DEV_VIRAMA: return "K3";
      case ref::DEV_MARK: return "K4";
      case ref::DEV_NORM: return "K5";
      case ref::DEV_PERLABEL: return "K6";
    }
    return "?";
  }
  // Reports which of the known deviations the outcome hangs on: those without which it would differ.
  template <class F>  // F(Ucd, perlabel) -> std::string outcome
  void attribute(Ctx& x, F f, const std::string& what) {
    if (x.probing) return;
    std::string all = f(K, false);
    bool any = false;
    for (unsigned bit = 1; bit < ref::DEV_ALL; bit <<= 1) {
      if (!(bit & ref::DEV_ALL)) continue;
      unsigned dev = ref::DEV_ALL & ~bit;
      if (f(with(dev), false) != all) { x.finding(id(bit), what); any = true; }
    }
    if (!any) x.count("known_findings_combined");
  }
};

int harness_main(int argc, char** argv, Ctx& x, std::function<void(Ctx&)> generate);
// --merge a,b,c: the number of distinct hashes in the files
inline int merge_hashes(const std::string& files) {
  std::vector<uint64_t> all;
  std::istringstream is(files);
  std::string f;
  while (std::getline(is, f, ',')) {
    std::ifstream g(f, std::ios::binary | std::ios::ate);
    if (!g) continue;
    size_t n = (size_t)g.tellg() / 8, at = all.size();
    g.seekg(0);
    all.resize(at + n);
    g.read((char*)(all.data() + at), (std::streamsize)(n * 8));
  }
  std::sort(all.begin(), all.end());
  printf("distinct %zu\n", (size_t)(std::unique(all.begin(), all.end()) - all.begin()));
  return 0;
}

#ifdef FUZZ
#include "fuzz.hpp"
#endif
#ifndef NO_HARNESS_MAIN_IMPL
inline int harness_main(int argc, char** argv, Ctx& x, std::function<void(Ctx&)> generate) {
  std::string cas, trace, corpus;
  uint64_t fuzz = 0, fuzz_len = 600;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") x.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier") x.tier = v;
    else if (k == "--oracle") x.oracle = v;
    else if (k == "--out") x.out = v;
    else if (k == "--shard") x.shard = atoi(v.c_str());
    else if (k == "--shards") x.shards = atoi(v.c_str());
    else if (k == "--scale") x.scale = atof(v.c_str());
    else if (k == "--case") cas = v;
    else if (k == "--trace") trace = v;
    else if (k == "--prop") x.prop = v;
    else if (k == "--merge") return merge_hashes(v);
    else if (k == "--fuzz") fuzz = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--fuzz-len") fuzz_len = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--corpus") corpus = v;
  }
  if (!trace.empty()) {
    int fd = open(trace.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, Ctx::kTrace) == 0) {
      void* p = mmap(nullptr, Ctx::kTrace, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) x.trace = (char*)p;
    }
  }
  if (!cas.empty()) {
    std::ifstream f(cas);
    std::string l;
    while (std::getline(f, l)) {  // the last one is the case, those before are its history
      if (l.empty()) continue;
      Case c = Case::parse(l);
      c.unit = 0;
      x.run1(c);
    }
    for (auto& v : x.viols) printf("VIOLATION %s: %s\n", v.key.c_str(), v.detail.c_str());
    for (auto& k : x.known) printf("known %s: %s\n", k.first.c_str(), k.second.example.c_str());
    if (x.viols.empty()) printf("no violation on this case\n");
    if (!x.out.empty()) x.write();
    return x.viols.empty() ? 0 : 1;
  }
#ifdef FUZZ
  if (fuzz) {
    Fuzz::runs = (uint64_t)(fuzz * x.scale);
    return Fuzz::main(x, corpus, fuzz_len, generate);
  }
#endif
  (void)fuzz; (void)fuzz_len;
  generate(x);
  if (!x.out.empty()) x.write();
  return 0;
}
#endif
