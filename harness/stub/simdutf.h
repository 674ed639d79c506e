// Stand-in for simdutf, by its documented contract, so that the ADA_USE_SIMDUTF paths can be run here.
#pragma once
#include <cstddef>
#include <cstdint>
namespace simdutf {
inline size_t utf32_length_from_utf8(const char* p, size_t n) { size_t k = 0; for (size_t i = 0; i < n; i++) k += ((unsigned char)p[i] & 0xc0) != 0x80; return k; }
inline size_t utf8_length_from_utf32(const char32_t* p, size_t n) { size_t k = 0; for (size_t i = 0; i < n; i++) k += 1 + (p[i] > 0x7f) + (p[i] > 0x7ff) + (p[i] > 0xffff); return k; }
inline size_t convert_utf8_to_utf32(const char* s, size_t n, char32_t* o) {
  size_t k = 0;
  for (size_t i = 0; i < n;) {
    unsigned char c = (unsigned char)s[i];
    unsigned len = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!len || i + len > n) return 0;
    char32_t v = len == 1 ? c : c & (0x7fu >> len);
    for (unsigned j = 1; j < len; j++) { unsigned char d = (unsigned char)s[i + j]; if ((d & 0xc0) != 0x80) return 0; v = v << 6 | (d & 0x3f); }
    if ((len == 3 && v < 0x800) || (len == 4 && v < 0x10000) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return 0;
    o[k++] = v;
    i += len;
  }
  return k;
}
inline size_t convert_utf32_to_utf8(const char32_t* s, size_t n, char* o) {
  size_t k = 0;
  for (size_t i = 0; i < n; i++) {
    char32_t c = s[i];
    if (c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) return 0;
    if (c < 0x80) o[k++] = (char)c;
    else if (c < 0x800) { o[k++] = (char)(0xc0 | c >> 6); o[k++] = (char)(0x80 | (c & 0x3f)); }
    else if (c < 0x10000) { o[k++] = (char)(0xe0 | c >> 12); o[k++] = (char)(0x80 | (c >> 6 & 0x3f)); o[k++] = (char)(0x80 | (c & 0x3f)); }
    else { o[k++] = (char)(0xf0 | c >> 18); o[k++] = (char)(0x80 | (c >> 12 & 0x3f)); o[k++] = (char)(0x80 | (c >> 6 & 0x3f)); o[k++] = (char)(0x80 | (c & 0x3f)); }
  }
  return k;
}
inline size_t convert_valid_utf8_to_utf32(const char* s, size_t n, char32_t* o) { return convert_utf8_to_utf32(s, n, o); }
inline size_t convert_valid_utf32_to_utf8(const char32_t* s, size_t n, char* o) { return convert_utf32_to_utf8(s, n, o); }
inline bool validate_utf32(const char32_t* s, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] > 0x10ffff || (s[i] >= 0xd800 && s[i] < 0xe000)) return false; return true; }
inline bool validate_ascii(const char* s, size_t n) { for (size_t i = 0; i < n; i++) if ((unsigned char)s[i] >= 0x80) return false; return true; }
}  // namespace simdutf
