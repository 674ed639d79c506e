// C15, second part: calls from static constructors (before main, before the library's own dynamic initialization in
// link order) and from static destructors and exit handlers. Every phase must give the answers that main gets.
#include "idna.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
namespace ai = ada::idna;

static unsigned answers(char* buf, size_t cap) {
  // plain memory only: this runs before the constructors of other objects
  static const char* const in[] = {"b\xc3\xbc" "cher.DE", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e.jp", "\xd7\x90\xd7\x91\xd6\xb0.example", "a\xcc\x88\xcc\xa3", "\xef\xb7\xba", "xn--nxasmq6b", "xn--a", "\xe0\xa4\x95\xe0\xa5\x8d\xe2\x80\x8d", "\xd8\xa8\xe2\x80\x8c\xd8\xa8", "\xcc\x81" "a", "\xe1\x84\x80\xe1\x85\xa1\xe1\x86\xa8", "ASCII.only", "\xf0\x9f\x92\xa9.la", "fa\xc3\x9f.de", "\xe2\x92\x88" "com"};
  unsigned n = 0;
  buf[0] = 0;
  auto add = [&](const std::string& s) { size_t k = strlen(buf); if (k + s.size() + 2 < cap) { memcpy(buf + k, s.data(), s.size()); buf[k + s.size()] = '\n'; buf[k + s.size() + 1] = 0; } n++; };
  for (const char* s : in) {
    std::string o;
    bool b = ai::to_ascii(s, o);
    add((b ? "1" : "0") + o);
    b = ai::to_unicode(s, o);
    add((b ? "1" : "0") + o);
    std::vector<char32_t> w(strlen(s));
    size_t k = ai::utf8_to_utf32(s, strlen(s), w.data());
    std::u32string u(w.data(), k), m;
    b = ai::map(u, m);
    bool c = ai::normalize(u), d = ai::is_already_nfc(u), e = ai::is_label_valid(u);
    std::string t;
    for (char32_t x : m) t += std::to_string((unsigned)x) + ",";
    for (char32_t x : u) t += std::to_string((unsigned)x) + (ai::valid_name_code_point(x, true) ? "s" : ".") + (ai::valid_name_code_point(x, false) ? "p" : ".");
    add(t + (b ? "1" : "0") + (c ? "1" : "0") + (d ? "1" : "0") + (e ? "1" : "0"));
  }
  return n;
}
static char phase[6][20000];
static unsigned calls = 0;
static const char* kName[] = {"constructor, early", "constructor, late", "main", "thread", "exit handler", "destructor"};
static void judge(int i) {
  if (strcmp(phase[i], phase[2])) {
    const char *a = phase[i], *b = phase[2];
    size_t k = 0;
    while (a[k] && a[k] == b[k]) k++;
    while (k && a[k - 1] != '\n') k--;
    printf("BAD static phase|in the phase '%s' a call answered %.*s, in main %.*s\n", kName[i], (int)strcspn(a + k, "\n"), a + k, (int)strcspn(b + k, "\n"), b + k);
    fflush(stdout);
  }
}
struct Early { Early() { calls += answers(phase[0], 20000); } };
struct Late {
  Late() { calls += answers(phase[1], 20000); }
  ~Late() { calls += answers(phase[5], 20000); judge(5); printf("OK %u\n", calls); fflush(stdout); }
};
#ifdef PRIORITY
__attribute__((init_priority(101))) static Early early;
#else
static Early early;
#endif
static Late late;
int main() {
  atexit([] { calls += answers(phase[4], 20000); judge(4); });
  calls += answers(phase[2], 20000);
  std::thread([] { calls += answers(phase[3], 20000); }).join();
  judge(0); judge(1); judge(3);
  return 0;
}
