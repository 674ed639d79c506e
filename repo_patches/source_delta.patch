From b13cda48b707eb1cf77e996864b953bbc40074cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 1/9] fix: make is_already_nfc exact, so that normalize() never
 skips work

The quick check took every precomposed character for NFC as-is. It is not
when a mark of a lower combining class follows (U+00E9 U+0323), nor when it is
a composition exclusion (U+0958). The test for a Hangul LV syllable followed
by a trailing consonant was inverted (U+AC00 U+11A8).
---
 include/ada/idna/normalization.h |  2 +-
 src/normalization.cpp            | 68 ++++++++++++++++++++++++++++----
 2 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/include/ada/idna/normalization.h b/include/ada/idna/normalization.h
index b8f4a68..2513b98 100644
--- a/include/ada/idna/normalization.h
+++ b/include/ada/idna/normalization.h
@@ -9,7 +9,7 @@ namespace ada::idna {
 // Returns true if `input` is already in Unicode Normalization Form C.
 // Requires that internal tables have been loaded (call ensure via normalize
 // or map first, or this returns false if tables are unavailable).
-[[nodiscard]] bool is_already_nfc(std::u32string_view input) noexcept;
+[[nodiscard]] bool is_already_nfc(std::u32string_view input);
 
 // Normalize the characters according to IDNA (Unicode Normalization Form C).
 // Returns false if the internal Unicode tables could not be loaded; in that
diff --git a/src/normalization.cpp b/src/normalization.cpp
index 63406d7..a2db15a 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -22,7 +22,8 @@ constexpr char32_t hangul_scount =
 // Canonical decomposition length (0 if none / compatibility-only / Hangul
 // syllable). Length 1 means a singleton mapping (character is not NFC form).
 // Length >= 2 means a primary composite that is already the NFC form of its
-// decomposition (e.g. U+00E9 LATIN SMALL LETTER E WITH ACUTE).
+// decomposition (e.g. U+00E9 LATIN SMALL LETTER E WITH ACUTE), or a composition
+// exclusion.
 static size_t canonical_decomp_length(char32_t current_character) noexcept {
   if (current_character >= hangul_sbase &&
       current_character < hangul_sbase + hangul_scount) {
@@ -154,6 +155,8 @@ void decompose_nfc(std::u32string& input) {
   sort_marks(input);
 }
 
+void compose(std::u32string& input);
+
 // Returns true if a composition step would change the string.
 static bool would_compose(std::u32string_view input) noexcept {
   for (size_t input_count = 0; input_count < input.size();) {
@@ -168,7 +171,7 @@ static bool would_compose(std::u32string_view input) noexcept {
       continue;
     }
     if (current >= hangul_sbase && current < hangul_sbase + hangul_scount) {
-      if ((current - hangul_sbase) % hangul_tcount &&
+      if ((current - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
@@ -219,19 +222,58 @@ static bool would_compose(std::u32string_view input) noexcept {
   return false;
 }
 
-bool is_already_nfc(std::u32string_view input) noexcept {
+// Returns the primary composite of (first, second), or 0 if there is none.
+static char32_t compose_pair(char32_t first, char32_t second) noexcept {
+  const uint16_t* const row =
+      composition_block_row(composition_index[first >> 8]) + (first % 256);
+  for (size_t i = row[0]; i + 1 < row[1] && i + 1 < composition_data_size;
+       i += 2) {
+    if (composition_data[i] == second) {
+      return composition_data[i + 1];
+    }
+  }
+  return 0;
+}
+
+// True if `c`, which has a canonical decomposition of `length` code points, is
+// what that decomposition composes to. Composition exclusions (e.g. U+0958) are
+// not: they never occur in NFC.
+static bool is_primary_composite(char32_t c, size_t length) noexcept {
+  const size_t base =
+      decomposition_block_row(decomposition_index[c >> 8])[c % 256] >> 2;
+  if (base + length > decomposition_data_size) {
+    return false;
+  }
+  char32_t composed = decomposition_data[base];
+  for (size_t i = 1; i < length && composed != 0; ++i) {
+    composed = compose_pair(composed, decomposition_data[base + i]);
+  }
+  return composed == c;
+}
+
+bool is_already_nfc(std::u32string_view input) {
   if (input.empty()) {
     return true;
   }
   if (!tables_are_ready() && !ensure_tables()) {
     return false;
   }
-  // 1) Singleton decompositions are never NFC (e.g. U+212B ANGSTROM SIGN).
-  //    Multi-code-point decomps are primary composites that are NFC as-is.
-  for (char32_t c : input) {
-    if (canonical_decomp_length(c) == 1) {
+  // 1) Singleton decompositions are never NFC (e.g. U+212B ANGSTROM SIGN), nor
+  //    are multi-code-point decomps unless they are primary composites. These
+  //    are NFC as-is, except when followed by a mark: it may sort before the
+  //    marks of their decomposition (e.g. U+00E9 U+0323), see 4).
+  bool has_marked_composite = false;
+  for (size_t i = 0; i < input.size(); ++i) {
+    const size_t length = canonical_decomp_length(input[i]);
+    if (length == 0) {
+      continue;
+    }
+    if (length == 1 || !is_primary_composite(input[i], length)) {
       return false;
     }
+    if (i + 1 < input.size() && get_ccc(input[i + 1]) != 0) {
+      has_marked_composite = true;
+    }
   }
   // 2) Combining marks already in canonical order.
   uint8_t prev_ccc = 0;
@@ -243,7 +285,17 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     prev_ccc = ccc;
   }
   // 3) No pairwise composition would apply (including Hangul L+V / LV+T).
-  return !would_compose(input);
+  if (would_compose(input)) {
+    return false;
+  }
+  // 4) Rare: only the full algorithm tells for a composite followed by marks.
+  if (has_marked_composite) {
+    std::u32string normalized(input);
+    decompose_nfc(normalized);
+    compose(normalized);
+    return normalized == input;
+  }
+  return true;
 }
 
 void compose(std::u32string& input) {
-- 
2.43.0


From bdd1710e2edfcaeef5fc14bed503168067393bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 2/9] fix: reject a punycode string that begins with its
 delimiter

'-abc' decoded like 'abc', so that a label had two ACE forms.
---
 src/punycode.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index 60e6e25..43f4262 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -45,7 +45,9 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
-  if (end_of_ascii != std::string_view::npos) {
+  // A delimiter in first position delimits nothing: it is then left in the input
+  // and rejected below as it is no digit (RFC 3492, section 6.2).
+  if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
@@ -114,7 +116,9 @@ bool verify_punycode(std::string_view input) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
-  if (end_of_ascii != std::string_view::npos) {
+  // A delimiter in first position delimits nothing: it is then left in the input
+  // and rejected below as it is no digit (RFC 3492, section 6.2).
+  if (end_of_ascii != std::string_view::npos && end_of_ascii > 0) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
         return false;
-- 
2.43.0


From 77cb42bece457e1d3084cf2a3763efffa3ed5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 3/9] fix: do not let a code length repeat run past the end of
 lens[]

A corrupt dynamic block could write up to 137 bytes behind the array.
---
 src/raw_inflate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index dd0435c..f7b38bb 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -210,18 +210,20 @@ inline size_t inflate_raw(const uint8_t* src, size_t src_len, uint8_t* dst,
             uint32_t rep = br.get(2);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
-            if (i == 0) return 0;
+            if (i == 0 || rep > n - i) return 0;
             uint8_t v = lens[i - 1];
             while (rep--) lens[i++] = v;
           } else if (sym == 17) {
             uint32_t rep = br.get(3);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else if (sym == 18) {
             uint32_t rep = br.get(7);
             if (rep == UINT32_MAX) return 0;
             rep += 11;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else
             return 0;
-- 
2.43.0


From 446808ce25ca452d446a8e7c6d4491f29e103f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 4/9] fix: check every joiner of a label, in its context

The first joiner that satisfied or failed its rule decided on the whole label:
later joiners and the Bidi rule went unchecked. And the rule for ZWNJ asked for
a joining letter anywhere on either side, not for one next to it (RFC 5892,
A.1).
---
 src/validity.cpp | 65 +++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 52ebd0c..29b992b 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -184,38 +184,41 @@ bool is_label_valid(const std::u32string_view label) {
       0xa867, 0xa868, 0xa869, 0xa86a, 0xa86b, 0xa86c, 0xa86d, 0xa86e, 0xa86f,
       0xa870, 0xa871};
 
+  // Every joiner of the label has to satisfy its rule, next to a virama or, for
+  // ZWNJ, in (L|D) T* ZWNJ T* (R|D). The Joining_Type T (transparent) is derived
+  // from General_Category Mn, Me and Cf: we go by the bidi class NSM.
+  auto is_l_or_d = [](uint32_t code) {
+    return std::ranges::binary_search(L, code) ||
+           std::ranges::binary_search(D, code);
+  };
+  auto is_r_or_d = [](uint32_t code) {
+    return std::ranges::binary_search(R, code) ||
+           std::ranges::binary_search(D, code);
+  };
+  auto is_transparent = [](uint32_t code) {
+    return find_direction(code) == direction::NSM;
+  };
   for (size_t i = 0; i < label.size(); i++) {
-    uint32_t c = label[i];
-    if (c == 0x200c) {
-      if (i > 0) {
-        if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
-        }
-      }
-      if ((i == 0) || (i + 1 >= label.size())) {
-        return false;
-      }
-      // we go backward looking for L or D
-      auto is_l_or_d = [](uint32_t code) {
-        return std::ranges::binary_search(L, code) ||
-               std::ranges::binary_search(D, code);
-      };
-      auto is_r_or_d = [](uint32_t code) {
-        return std::ranges::binary_search(R, code) ||
-               std::ranges::binary_search(D, code);
-      };
-      std::u32string_view before = label.substr(0, i);
-      std::u32string_view after = label.substr(i + 1);
-      return (std::find_if(before.begin(), before.end(), is_l_or_d) !=
-              before.end()) &&
-             (std::find_if(after.begin(), after.end(), is_r_or_d) !=
-              after.end());
-    } else if (c == 0x200d) {
-      if (i > 0) {
-        if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
-        }
-      }
+    const uint32_t c = label[i];
+    if (c != 0x200c && c != 0x200d) {
+      continue;
+    }
+    if (i > 0 && std::ranges::binary_search(virama, label[i - 1])) {
+      continue;
+    }
+    if (c == 0x200d) {
+      return false;
+    }
+    size_t before = i;
+    while (before > 0 && is_transparent(label[before - 1])) {
+      before--;
+    }
+    size_t after = i + 1;
+    while (after < label.size() && is_transparent(label[after])) {
+      after++;
+    }
+    if (before == 0 || after == label.size() || !is_l_or_d(label[before - 1]) ||
+        !is_r_or_d(label[after])) {
       return false;
     }
   }
-- 
2.43.0


From 7d13b24aed938cd0671f595ad1da7fbfdd148aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 5/9] fix: apply the Bidi rule to every label of a Bidi domain
 name

---
 include/ada/idna/validity.h | 10 ++++++++++
 src/to_ascii.cpp            | 30 ++++++++++++++++++++++++++++++
 src/validity.cpp            | 12 +++++++++++-
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/include/ada/idna/validity.h b/include/ada/idna/validity.h
index f703c29..84a298d 100644
--- a/include/ada/idna/validity.h
+++ b/include/ada/idna/validity.h
@@ -11,6 +11,16 @@ namespace ada::idna {
  */
 bool is_label_valid(std::u32string_view label);
 
+/**
+ * Same, for a label of a domain that may be a Bidi domain name (one that has a
+ * right-to-left character in any label): if it is, every label must satisfy the
+ * Bidi rule, not only those with right-to-left characters.
+ */
+bool is_label_valid(std::u32string_view label, bool in_bidi_domain);
+
+/** True if the label has a character of Bidi class R, AL or AN. */
+bool has_rtl_characters(std::u32string_view label);
+
 }  // namespace ada::idna
 
 #endif  // ADA_IDNA_VALIDITY_H
diff --git a/src/to_ascii.cpp b/src/to_ascii.cpp
index 4b7a3b3..712e650 100644
--- a/src/to_ascii.cpp
+++ b/src/to_ascii.cpp
@@ -84,6 +84,29 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
          label[2] == U'-' && label[3] == U'-';
 }
 
+// In a Bidi domain name every label must satisfy the Bidi rule (UTS #46
+// CheckBidi, RFC 5893), also those without right-to-left characters. `domain`
+// is the ASCII form, with valid A-labels.
+static bool satisfies_bidi_domain_rule(std::string_view domain,
+                                       std::u32string& scratch) {
+  while (!domain.empty()) {
+    const std::string_view label = domain.substr(0, domain.find('.'));
+    domain.remove_prefix(std::min(label.size() + 1, domain.size()));
+    scratch.clear();
+    if (label.starts_with("xn--")) {
+      if (!ada::idna::punycode_to_utf32(label.substr(4), scratch)) {
+        return false;
+      }
+    } else {
+      scratch.assign(label.begin(), label.end());
+    }
+    if (!is_label_valid(scratch, true)) {
+      return false;
+    }
+  }
+  return true;
+}
+
 [[nodiscard]] bool to_ascii(std::string_view ut8_string, std::string& out) {
   out.clear();
   if (ut8_string.size() > max_domain_input_bytes) {
@@ -140,6 +163,7 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
   const char32_t* p = mapped.data();
   const char32_t* const end = p + mapped.size();
   std::u32string post_map;
+  bool bidi_domain = false;
 
   while (p < end) {
     const char32_t* label_begin = p;
@@ -189,6 +213,7 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
         out.clear();
         return false;
       }
+      bidi_domain = bidi_domain || has_rtl_characters(post_map);
     } else if (is_ascii(label_view)) {
       append_ascii_label(out, label_view);
     } else {
@@ -196,6 +221,7 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
         out.clear();
         return false;
       }
+      bidi_domain = bidi_domain || has_rtl_characters(label_view);
       out.append("xn--");
       if (!ada::idna::utf32_to_punycode(label_view, out)) {
         out.clear();
@@ -206,6 +232,10 @@ static bool is_ace_prefix(std::u32string_view label) noexcept {
       out.push_back('.');
     }
   }
+  if (bidi_domain && !satisfies_bidi_domain_rule(out, working)) {
+    out.clear();
+    return false;
+  }
   return true;
 }
 
diff --git a/src/validity.cpp b/src/validity.cpp
index 29b992b..79c5c54 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -1,3 +1,5 @@
+#include "ada/idna/validity.h"
+
 #include "table_store.hpp"
 
 #include <algorithm>
@@ -79,6 +81,14 @@ inline static bool is_rtl_label(const std::u32string_view label) noexcept {
 }
 
 bool is_label_valid(const std::u32string_view label) {
+  return is_label_valid(label, false);
+}
+
+bool has_rtl_characters(const std::u32string_view label) {
+  return ensure_tables() && is_rtl_label(label);
+}
+
+bool is_label_valid(const std::u32string_view label, bool in_bidi_domain) {
   if (label.empty()) {
     return true;
   }
@@ -261,7 +271,7 @@ bool is_label_valid(const std::u32string_view label) {
   // A "Bidi domain name" is a domain name that contains at least one RTL label.
   // The following rule, consisting of six conditions, applies to labels in Bidi
   // domain names.
-  if (is_rtl_label(label)) {
+  if (in_bidi_domain || is_rtl_label(label)) {
     // The first character must be a character with Bidi property L, R,
     // or AL. If it has the R or AL property, it is an RTL label; if it
     // has the L property, it is an LTR label.
-- 
2.43.0


From c94bb2aeb7b9b0d5a67cce7f75ca225b4f1822e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 6/9] fix: add the viramas of Unicode 14 to 17 to the ContextJ
 rule

---
 src/validity.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 79c5c54..6772242 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -139,12 +139,13 @@ bool is_label_valid(const std::u32string_view label, bool in_bidi_domain) {
   constexpr static uint32_t virama[] = {
       0x094D,  0x09CD,  0x0A4D,  0x0ACD,  0x0B4D,  0x0BCD,  0x0C4D,  0x0CCD,
       0x0D3B,  0x0D3C,  0x0D4D,  0x0DCA,  0x0E3A,  0x0EBA,  0x0F84,  0x1039,
-      0x103A,  0x1714,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,  0x1BAB,
-      0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,  0xA9C0,
-      0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x1107F, 0x110B9, 0x11133, 0x11134,
-      0x111C0, 0x11235, 0x112EA, 0x1134D, 0x11442, 0x114C2, 0x115BF, 0x1163F,
-      0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47,
-      0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97};
+      0x103A,  0x1714,  0x1715,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,
+      0x1BAB,  0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,
+      0xA9C0,  0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x11070, 0x1107F, 0x110B9,
+      0x11133, 0x11134, 0x111C0, 0x11235, 0x112EA, 0x1134D, 0x113CE, 0x113CF,
+      0x113D0, 0x11442, 0x114C2, 0x115BF, 0x1163F, 0x116B6, 0x1172B, 0x11839,
+      0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47, 0x11A99, 0x11C3F, 0x11D44,
+      0x11D45, 0x11D97, 0x11F41, 0x11F42, 0x1612F};
   constexpr static uint32_t R[] = {
       0x622, 0x623, 0x624, 0x625, 0x627, 0x629, 0x62f, 0x630, 0x631,
       0x632, 0x648, 0x671, 0x672, 0x673, 0x675, 0x676, 0x677, 0x688,
-- 
2.43.0


From ae792a96d8553973e276ee0eb19e9ef2a413c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 7/9] fix: fall back to the full table when one range cannot
 describe plane 14

find_high_ignored_range() took everything between the lowest and the highest
ignored code point above U+E0000 as ignored, and whatever else is in use above
its start as disallowed. With gaps in the range, or other code points in use
there, the generated tables contradicted the data file.
---
 scripts/idna_table.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/idna_table.py b/scripts/idna_table.py
index ed302f2..3470c1b 100644
--- a/scripts/idna_table.py
+++ b/scripts/idna_table.py
@@ -88,13 +88,20 @@ def parse_idna(table_data):
 def find_high_ignored_range(entries):
     """
     Find the ignored code point range above U+E0000.
-    Returns (start, end_exclusive) or (None, None) if not found.
+    Returns (start, end_exclusive) or (None, None) if not found, or if one
+    range cannot stand for everything that is not disallowed there.
     """
     high_ignored = [(s, e) for s, e, c, m in entries if c == 0 and s >= 0xE0000]
     if not high_ignored:
         return None, None
     start = min(s for s, e in high_ignored)
     end   = max(e for s, e in high_ignored) + 1  # exclusive
+    # A gap in the range, or a valid or mapped code point in or above it
+    # (anything past the start is left out of the two-level table).
+    if sum(e - s + 1 for s, e in high_ignored) != end - start:
+        return None, None
+    if any(c in (1, 3) and e >= start for s, e, c, m in entries):
+        return None, None
     return start, end
 
 def compute_low_range_end(entries, high_ignored_start):
-- 
2.43.0


From eee2874c635d1f56a20a169b33a639392a187975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 8/9] fix: refuse mapping data with more mixed blocks than
 stage1 can index

The offset of a mixed block shares its 16 bits with BOOL_FLAG, so offsets from
0x8000 on were written as boolean blocks: the generated tables were wrong
without any message.
---
 scripts/idna_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/idna_table.py b/scripts/idna_table.py
index 3470c1b..1b169af 100644
--- a/scripts/idna_table.py
+++ b/scripts/idna_table.py
@@ -286,6 +286,9 @@ def generate_idna():
         f"UTF-8 table too large: {len(utf8_table)} bytes, max 0xFFFD"
     assert len(stage1) <= 0x8000, \
         f"stage1 too large: {len(stage1)} entries"
+    # A stage1 entry holds BOOL_FLAG or the offset of a mixed block.
+    assert len(mixed_data) <= BOOL_FLAG, \
+        f"Too many mixed blocks: {len(mixed_data)} entries, max {BOOL_FLAG}"
 
     return {
         "version": version,
-- 
2.43.0


From 9f784834995e8ce5ed7bda01f323fffed175e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 9/9] fix: pack_tables.py counts the block rows of the sections
 it writes

load_blob_sections() passes the row counts of the present blob along, and
write_blob() preferred them to the sections given: a section with another
number of rows (the documented programmatic update) gave a table_blob.inc
whose counts contradict each other, and the library did not compile.
---
 scripts/pack_tables.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/scripts/pack_tables.py b/scripts/pack_tables.py
index 173ad24..e4ab360 100755
--- a/scripts/pack_tables.py
+++ b/scripts/pack_tables.py
@@ -144,7 +144,6 @@ def load_blob_sections(path: Path = BLOB_PATH) -> dict[str, list[int]]:
 
 def write_blob(sections: dict[str, Any], path: Path = BLOB_PATH) -> None:
     """Write sections (name -> list[int]) as src/table_blob.inc."""
-    meta_in = sections.get("_meta") or {}
     blob = bytearray()
     layout: list[tuple[str, int, int, str, int]] = []
 
@@ -173,19 +172,11 @@ def write_blob(sections: dict[str, Any], path: Path = BLOB_PATH) -> None:
     # Derive high-level counts used by table_store.hpp
     # Fixed multi-stage dimensions (Unicode page tables).
     meta = {
-        "decomposition_block_rows": meta_in.get(
-            "decomposition_block_rows",
-            len(sections["decomposition_block"]) // 257,
-        ),
+        "decomposition_block_rows": len(sections["decomposition_block"]) // 257,
         "decomposition_block_cols": 257,
-        "ccc_block_rows": meta_in.get(
-            "ccc_block_rows", len(sections["ccc_block"]) // 256
-        ),
+        "ccc_block_rows": len(sections["ccc_block"]) // 256,
         "ccc_block_cols": 256,
-        "composition_block_rows": meta_in.get(
-            "composition_block_rows",
-            len(sections["composition_block"]) // 257,
-        ),
+        "composition_block_rows": len(sections["composition_block"]) // 257,
         "composition_block_cols": 257,
         "id_continue_count": len(sections["id_continue_flat"]) // 2,
         "id_start_count": len(sections["id_start_flat"]) // 2,
-- 
2.43.0

