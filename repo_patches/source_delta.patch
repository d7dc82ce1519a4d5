From d83e65c6bf4a01d8f9da86bcb299dcc550d0a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 1/6] fix: refuse code-length repeats that run past the
 code-length array

A dynamic block whose repeat codes exceed HLIT + HDIST overflowed the
lens[] stack buffer; RFC 1951 streams never do this.
---
 src/raw_inflate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index dd0435c..f7b38bb 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -210,18 +210,20 @@ inline size_t inflate_raw(const uint8_t* src, size_t src_len, uint8_t* dst,
             uint32_t rep = br.get(2);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
-            if (i == 0) return 0;
+            if (i == 0 || rep > n - i) return 0;
             uint8_t v = lens[i - 1];
             while (rep--) lens[i++] = v;
           } else if (sym == 17) {
             uint32_t rep = br.get(3);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else if (sym == 18) {
             uint32_t rep = br.get(7);
             if (rep == UINT32_MAX) return 0;
             rep += 11;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else
             return 0;
-- 
2.43.0


From 74ebb670ab1cf45109ab20178cfff767c5eb1d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 2/6] fix: refuse Punycode that starts with its delimiter

RFC 3492 section 6.2 consumes the delimiter only when it follows at least
one basic code point; otherwise '-' is read as a digit and decoding fails.
Accepting it made two strings decode to the same label.
---
 src/punycode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index 60e6e25..f40d102 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -45,6 +45,10 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
+  if (end_of_ascii == 0) {
+    // A delimiter must follow at least one basic code point (RFC 3492, 6.2).
+    return false;
+  }
   if (end_of_ascii != std::string_view::npos) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
@@ -114,6 +118,10 @@ bool verify_punycode(std::string_view input) {
   int32_t bias = initial_bias;
   // grab ascii content
   size_t end_of_ascii = input.find_last_of('-');
+  if (end_of_ascii == 0) {
+    // A delimiter must follow at least one basic code point (RFC 3492, 6.2).
+    return false;
+  }
   if (end_of_ascii != std::string_view::npos) {
     for (uint8_t c : input.substr(0, end_of_ascii)) {
       if (c >= 0x80) {
-- 
2.43.0


From 5857094abb43dbede6358bfab9dc64b35d5768c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 3/6] fix: compose Hangul LV syllables, not LVT ones, with a
 trailing consonant

---
 src/normalization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalization.cpp b/src/normalization.cpp
index 63406d7..d2390e0 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -168,7 +168,7 @@ static bool would_compose(std::u32string_view input) noexcept {
       continue;
     }
     if (current >= hangul_sbase && current < hangul_sbase + hangul_scount) {
-      if ((current - hangul_sbase) % hangul_tcount &&
+      if ((current - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
@@ -274,7 +274,7 @@ void compose(std::u32string& input) {
       }
     } else if (input[input_count] >= hangul_sbase &&
                input[input_count] < hangul_sbase + hangul_scount) {
-      if ((input[input_count] - hangul_sbase) % hangul_tcount &&
+      if ((input[input_count] - hangul_sbase) % hangul_tcount == 0 &&
           input_count + 1 < input.size() &&
           input[input_count + 1] > hangul_tbase &&
           input[input_count + 1] < hangul_tbase + hangul_tcount) {
-- 
2.43.0


From c5358637c54bf7f5cda07c4729d2e7996bf0fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 4/6] fix: judge composites by composing them again in the NFC
 quick check

---
 include/ada/idna/normalization.h |  2 +-
 src/normalization.cpp            | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/ada/idna/normalization.h b/include/ada/idna/normalization.h
index b8f4a68..2513b98 100644
--- a/include/ada/idna/normalization.h
+++ b/include/ada/idna/normalization.h
@@ -9,7 +9,7 @@ namespace ada::idna {
 // Returns true if `input` is already in Unicode Normalization Form C.
 // Requires that internal tables have been loaded (call ensure via normalize
 // or map first, or this returns false if tables are unavailable).
-[[nodiscard]] bool is_already_nfc(std::u32string_view input) noexcept;
+[[nodiscard]] bool is_already_nfc(std::u32string_view input);
 
 // Normalize the characters according to IDNA (Unicode Normalization Form C).
 // Returns false if the internal Unicode tables could not be loaded; in that
diff --git a/src/normalization.cpp b/src/normalization.cpp
index d2390e0..9b6e8ce 100644
--- a/src/normalization.cpp
+++ b/src/normalization.cpp
@@ -21,8 +21,8 @@ constexpr char32_t hangul_scount =
 
 // Canonical decomposition length (0 if none / compatibility-only / Hangul
 // syllable). Length 1 means a singleton mapping (character is not NFC form).
-// Length >= 2 means a primary composite that is already the NFC form of its
-// decomposition (e.g. U+00E9 LATIN SMALL LETTER E WITH ACUTE).
+// Length >= 2 usually means a primary composite (e.g. U+00E9 LATIN SMALL LETTER
+// E WITH ACUTE).
 static size_t canonical_decomp_length(char32_t current_character) noexcept {
   if (current_character >= hangul_sbase &&
       current_character < hangul_sbase + hangul_scount) {
@@ -219,7 +219,9 @@ static bool would_compose(std::u32string_view input) noexcept {
   return false;
 }
 
-bool is_already_nfc(std::u32string_view input) noexcept {
+void compose(std::u32string& input);
+
+bool is_already_nfc(std::u32string_view input) {
   if (input.empty()) {
     return true;
   }
@@ -227,11 +229,13 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     return false;
   }
   // 1) Singleton decompositions are never NFC (e.g. U+212B ANGSTROM SIGN).
-  //    Multi-code-point decomps are primary composites that are NFC as-is.
+  bool has_composite = false;
   for (char32_t c : input) {
-    if (canonical_decomp_length(c) == 1) {
+    const size_t decomposition_length = canonical_decomp_length(c);
+    if (decomposition_length == 1) {
       return false;
     }
+    has_composite |= decomposition_length > 1;
   }
   // 2) Combining marks already in canonical order.
   uint8_t prev_ccc = 0;
@@ -243,7 +247,19 @@ bool is_already_nfc(std::u32string_view input) noexcept {
     prev_ccc = ccc;
   }
   // 3) No pairwise composition would apply (including Hangul L+V / LV+T).
-  return !would_compose(input);
+  if (would_compose(input)) {
+    return false;
+  }
+  // 4) A character with a longer decomposition may be excluded from
+  //    composition (e.g. U+0958), and a following mark may sort before one of
+  //    its own marks (e.g. U+1E0B U+0323): only composing it again tells.
+  if (has_composite) {
+    std::u32string normalized(input);
+    decompose_nfc(normalized);
+    compose(normalized);
+    return normalized == input;
+  }
+  return true;
 }
 
 void compose(std::u32string& input) {
-- 
2.43.0


From 5c49f6278336cc94f47b06219a8736e71fb83e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 5/6] fix: check every joiner of a label in its own context,
 then the Bidi rule

---
 src/validity.cpp | 65 ++++++++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index 52ebd0c..a7ab48b 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -184,38 +184,43 @@ bool is_label_valid(const std::u32string_view label) {
       0xa867, 0xa868, 0xa869, 0xa86a, 0xa86b, 0xa86c, 0xa86d, 0xa86e, 0xa86f,
       0xa870, 0xa871};
 
+  auto is_l_or_d = [](uint32_t code) {
+    return std::ranges::binary_search(L, code) ||
+           std::ranges::binary_search(D, code);
+  };
+  auto is_r_or_d = [](uint32_t code) {
+    return std::ranges::binary_search(R, code) ||
+           std::ranges::binary_search(D, code);
+  };
+  // Transparent characters are the non-spacing marks.
+  auto is_transparent = [](uint32_t code) {
+    return find_direction(code) == direction::NSM;
+  };
   for (size_t i = 0; i < label.size(); i++) {
     uint32_t c = label[i];
-    if (c == 0x200c) {
-      if (i > 0) {
-        if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
-        }
-      }
-      if ((i == 0) || (i + 1 >= label.size())) {
-        return false;
-      }
-      // we go backward looking for L or D
-      auto is_l_or_d = [](uint32_t code) {
-        return std::ranges::binary_search(L, code) ||
-               std::ranges::binary_search(D, code);
-      };
-      auto is_r_or_d = [](uint32_t code) {
-        return std::ranges::binary_search(R, code) ||
-               std::ranges::binary_search(D, code);
-      };
-      std::u32string_view before = label.substr(0, i);
-      std::u32string_view after = label.substr(i + 1);
-      return (std::find_if(before.begin(), before.end(), is_l_or_d) !=
-              before.end()) &&
-             (std::find_if(after.begin(), after.end(), is_r_or_d) !=
-              after.end());
-    } else if (c == 0x200d) {
-      if (i > 0) {
-        if (std::ranges::binary_search(virama, label[i - 1])) {
-          return true;
-        }
-      }
+    if (c != 0x200c && c != 0x200d) {
+      continue;
+    }
+    if (i == 0) {
+      return false;
+    }
+    if (std::ranges::binary_search(virama, label[i - 1])) {
+      continue;
+    }
+    if (c == 0x200d) {
+      return false;
+    }
+    // (L|D) T* ZWNJ T* (R|D)
+    size_t before = i - 1;
+    while (before > 0 && is_transparent(label[before])) {
+      before--;
+    }
+    size_t after = i + 1;
+    while (after < label.size() && is_transparent(label[after])) {
+      after++;
+    }
+    if (after == label.size() || !is_l_or_d(label[before]) ||
+        !is_r_or_d(label[after])) {
       return false;
     }
   }
-- 
2.43.0


From 407ad5e096c293150b5f565077dffe8f6e4fa6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 6/6] fix: list the viramas added since the joiner check was
 written

---
 src/validity.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/validity.cpp b/src/validity.cpp
index a7ab48b..cd59c57 100644
--- a/src/validity.cpp
+++ b/src/validity.cpp
@@ -129,12 +129,13 @@ bool is_label_valid(const std::u32string_view label) {
   constexpr static uint32_t virama[] = {
       0x094D,  0x09CD,  0x0A4D,  0x0ACD,  0x0B4D,  0x0BCD,  0x0C4D,  0x0CCD,
       0x0D3B,  0x0D3C,  0x0D4D,  0x0DCA,  0x0E3A,  0x0EBA,  0x0F84,  0x1039,
-      0x103A,  0x1714,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,  0x1BAB,
-      0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,  0xA9C0,
-      0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x1107F, 0x110B9, 0x11133, 0x11134,
-      0x111C0, 0x11235, 0x112EA, 0x1134D, 0x11442, 0x114C2, 0x115BF, 0x1163F,
-      0x116B6, 0x1172B, 0x11839, 0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47,
-      0x11A99, 0x11C3F, 0x11D44, 0x11D45, 0x11D97};
+      0x103A,  0x1714,  0x1715,  0x1734,  0x17D2,  0x1A60,  0x1B44,  0x1BAA,
+      0x1BAB,  0x1BF2,  0x1BF3,  0x2D7F,  0xA806,  0xA82C,  0xA8C4,  0xA953,
+      0xA9C0,  0xAAF6,  0xABED,  0x10A3F, 0x11046, 0x11070, 0x1107F, 0x110B9,
+      0x11133, 0x11134, 0x111C0, 0x11235, 0x112EA, 0x1134D, 0x113CE, 0x113CF,
+      0x113D0, 0x11442, 0x114C2, 0x115BF, 0x1163F, 0x116B6, 0x1172B, 0x11839,
+      0x1193D, 0x1193E, 0x119E0, 0x11A34, 0x11A47, 0x11A99, 0x11C3F, 0x11D44,
+      0x11D45, 0x11D97, 0x11F41, 0x11F42, 0x1612F};
   constexpr static uint32_t R[] = {
       0x622, 0x623, 0x624, 0x625, 0x627, 0x629, 0x62f, 0x630, 0x631,
       0x632, 0x648, 0x671, 0x672, 0x673, 0x675, 0x676, 0x677, 0x688,
-- 
2.43.0

