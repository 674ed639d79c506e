// C23: the library rebuilt from generated tables must answer as the data file says: one line per range,
// "M first last status mapping..." (0 ignored, 1 valid, 2 disallowed, 3 mapped), "S first last" (ID_Start), "C first last".
#include "idna.h"
#include <cstdio>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace ai = ada::idna;
struct Want { unsigned char status = 2; int seq = -1; bool s = false, c = false; };
static std::string show(const std::u32string& s) { std::string o = "["; char b[16]; for (char32_t c : s) { snprintf(b, sizeof b, o.size() > 1 ? " %04X" : "%04X", (unsigned)c); o += b; } return o + "]"; }
int main(int argc, char** argv) {
  if (argc < 2) return 3;
  std::vector<Want> w(0x110000);
  std::vector<std::u32string> seqs;
  std::ifstream f(argv[1]);
  std::string l;
  bool anyM = false, anyI = false;
  while (std::getline(f, l)) {
    std::istringstream is(l);
    std::string k;
    unsigned a, b, c;
    is >> k >> std::hex >> a >> b;
    if (k == "M") {
      anyM = true;
      is >> c;
      std::u32string q;
      unsigned u;
      while (is >> u) q += (char32_t)u;
      if (c == 3) seqs.push_back(q);
      for (unsigned i = a; i <= b; i++) { w[i].status = (unsigned char)c; w[i].seq = c == 3 ? (int)seqs.size() - 1 : -1; }
    }
    if (k == "S") { anyI = true; for (unsigned i = a; i <= b; i++) w[i].s = true; }
    if (k == "C") { anyI = true; for (unsigned i = a; i <= b; i++) w[i].c = true; }
  }
  unsigned long n = 0, bad = 0;
  auto complain = [&](const char* key, unsigned c, const std::string& got, const std::string& want) { if (bad++ < 5) printf("BAD %s|U+%04X: the rebuilt library gives %s, the data file says %s\n", key, c, got.c_str(), want.c_str()); };
  for (unsigned c = 0; c < 0x110010; c++) {
    Want q;
    if (c < 0x110000) q = w[c];
    if (anyM) {
      std::u32string o = U"x", in(1, (char32_t)c), want = q.status == 1 ? in : q.status == 3 ? seqs[(size_t)q.seq] : U"";
      bool ok = ai::map(in, o), wok = q.status != 2;
      n++;
      if (ok != wok || o != want) complain("mapping", c, (ok ? "" : "refused ") + show(o), (wok ? "" : "disallowed ") + show(want));
      if (c % 16 == 0) {  // in a sequence: code points are independent
        in = U"a"; in += (char32_t)c; in += U"b";
        ok = ai::map(in, o);
        n++;
        std::u32string w1;
        if (w['a'].status != 2 && w['b'].status != 2 && wok) {
          auto put = [&](unsigned k) { if (w[k].status == 1) w1 += (char32_t)k; if (w[k].status == 3) w1 += seqs[(size_t)w[k].seq]; };
          put('a'); if (c < 0x110000) put(c); put('b');
          if (!ok || o != w1) complain("mapping", c, "in a sequence " + show(o), show(w1));
        } else if (ok) complain("mapping", c, "in a sequence " + show(o), "disallowed");
      }
    }
    if (anyI) {
      n += 2;
      bool s = ai::valid_name_code_point(c, true), p = ai::valid_name_code_point(c, false);
      bool ws = q.s || c == '$' || c == '_', wp = q.c || c == '$';
      if (s != ws) complain("identifier start", c, s ? "true" : "false", ws ? "true" : "false");
      if (p != wp) complain("identifier part", c, p ? "true" : "false", wp ? "true" : "false");
    }
  }
  if (bad > 5) printf("%lu more\n", bad - 5);
  printf("OK %lu\n", n);
  return 0;
}
