From f31b40ac2d26631108990be9d7ed20693d2cca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 001/173] fix: html: keep raw text lengths exact after a
 closing name that does not end the element

match_raw_text skipped two code units (possibly past the end of the text) and
match_escapable_raw_text_piece dropped the matched part from its result when e.g.
</scriptx or </titlex appeared in raw text.
---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..e0241f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,7 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        length = new_length;
     }
     return length;
 }
@@ -153,6 +152,7 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From 397f229f47a15cd7686af97bf270ab909dcf3e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 002/173] fix: html: do not skip the code unit after a
 character reference in attribute values

A closing quote or the > directly after a reference was treated as content, and a
reference at the very end of the source made highlighting fail.
---
 src/main/cpp/lang/html.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index e0241f7..ad060f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -454,7 +454,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -464,7 +464,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
@@ -483,7 +485,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -494,7 +496,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
-- 
2.43.0


From d72e2593a6e85cdc304de42b0a88552edce359d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 003/173] fix: html: include the > in an end tag that has
 whitespace after its name

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index ad060f7..c8ef86e 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -252,7 +252,7 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
         return {};
     }
 
-    return { .length = end_pos, .name_length = name_length };
+    return { .length = end_pos + 1, .name_length = name_length };
 }
 
 namespace {
-- 
2.43.0


From 14fe1db559e65381e2a0a24219cda7517e609d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 004/173] fix: yaml: do not limit the number of block entries

Every mapping or sequence entry pushed onto a stack of 64 indentations, so a
document with more than 64 entries failed an assertion.
---
 src/main/cpp/lang/yaml.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7297ae8..c5ee3a1 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
+#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -212,37 +213,42 @@ struct Highlighter : Highlighter_Base {
     /// @brief Stack of indentation levels for block structures.
     /// Used to detect when a block collection ends (de-dent).
     struct Indent_Stack {
-        static constexpr std::size_t capacity = 64;
-        std::size_t data[capacity];
-        std::size_t size = 0;
+        std::pmr::vector<std::size_t> data;
+
+        explicit Indent_Stack(std::pmr::memory_resource* memory)
+            : data { memory }
+        {
+        }
 
         void push(std::size_t n)
         {
-            ULIGHT_ASSERT(size < capacity);
-            data[size++] = n;
+            // Sibling entries share one level.
+            if (data.empty() || data.back() != n) {
+                data.push_back(n);
+            }
         }
 
         [[nodiscard]]
         std::size_t top() const
         {
-            return size == 0 ? 0 : data[size - 1];
+            return data.empty() ? 0 : data.back();
         }
 
         void pop()
         {
-            ULIGHT_ASSERT(size > 0);
-            --size;
+            ULIGHT_ASSERT(!data.empty());
+            data.pop_back();
         }
 
         [[nodiscard]]
         bool empty() const
         {
-            return size == 0;
+            return data.empty();
         }
 
         void reset()
         {
-            size = 0;
+            data.clear();
         }
     };
 
@@ -256,6 +262,7 @@ public:
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
+        , indent_stack { memory }
     {
     }
 
-- 
2.43.0


From 63ee469c5b9def015e326d93b9cc1ab77c1fc282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 005/173] fix: markdown: do not emit an empty token for a bare
 <!--

---
 src/main/cpp/lang/markdown.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..84e315b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,11 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        if (comment.length > html_comment_prefix.length()) {
+            emit_and_advance(
+                comment.length - html_comment_prefix.length(), Highlight_Type::comment
+            );
+        }
         in_html_comment = true;
         return true;
     }
-- 
2.43.0


From a95e586a19126d4420d1c63f10bb6888e98ab8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 006/173] fix: js: keep escapes and braced JSX code within
 their enclosing construct

---
 src/main/cpp/lang/js.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..d258620 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1178,9 +1178,19 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // The extent of the braces has already been decided by match_jsx_braced,
+        // which knows nothing about templates and regular expressions.
+        // Therefore, the braced code has to be highlighted without looking past its end.
+        const std::u8string_view after_js = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        while (!remainder.empty()) {
             consume_js_before_closing_brace();
+            if (!remainder.empty()) {
+                consume_error();
+            }
         }
+        remainder = after_js;
+
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
@@ -1284,7 +1294,7 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                if (const Escape_Result esc = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From baaa4502ef8b8a21fc609c7eeac7f1c7008594b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 007/173] fix: yaml: do not recurse once per sequence entry

---
 src/main/cpp/lang/yaml.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index c5ee3a1..6bf4010 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -532,8 +532,12 @@ private:
     ///   (to account for the "- " prefix being perceived as indentation).
     void consume_block_node(const std::size_t block_indent, const std::size_t seq_offset)
     {
-        const std::size_t effective_indent = block_indent - seq_offset;
-        while (!eof()) {
+        // Each sequence entry opens another level for whatever follows it,
+        // so the levels are kept in a stack instead of recursing once per entry.
+        std::pmr::vector<std::size_t> effective_indents { memory };
+        effective_indents.push_back(block_indent - seq_offset);
+        while (!eof() && !effective_indents.empty()) {
+            const std::size_t effective_indent = effective_indents.back();
             // Skip blank lines and comment lines, preserving indentation.
             skip_blank_and_comment_lines();
             if (eof()) {
@@ -554,7 +558,8 @@ private:
                 while (!indent_stack.empty() && line_indent <= indent_stack.top()) {
                     indent_stack.pop();
                 }
-                return;
+                effective_indents.pop_back();
+                continue;
             }
 
             // Consume the indentation (no highlighting).
@@ -603,7 +608,7 @@ private:
                     skip_line();
                 }
                 indent_stack.push(line_indent);
-                consume_block_node(line_indent, 0);
+                effective_indents.push_back(line_indent);
                 continue;
             }
 
@@ -630,7 +635,7 @@ private:
                 continue;
             }
 
-            break;
+            effective_indents.pop_back();
         }
     }
 
-- 
2.43.0


From 8d264e2a81d6f2253c346b738f2d8f687bbda11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 008/173] fix: rust: a lifetime is not immediately followed by
 an apostrophe

An input like 'static'static failed an assertion.
---
 src/main/cpp/lang/rust.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..b507c27 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -574,7 +574,7 @@ private:
 
         if (remainder.starts_with(raw_prefix)) {
             const std::size_t id_length = match_identifier(remainder.substr(raw_prefix.length()));
-            if (!id_length) {
+            if (!id_length || remainder.substr(raw_prefix.length() + id_length).starts_with(u8'\'')) {
                 return false;
             }
             const std::u8string_view id = remainder.substr(raw_prefix.length(), id_length);
@@ -584,17 +584,14 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         else {
+            // A lifetime cannot be immediately followed by an apostrophe.
             const std::size_t id_length = match_identifier(remainder.substr(1));
-            if (!id_length) {
+            if (!id_length || remainder.substr(1 + id_length).starts_with(u8'\'')) {
                 return false;
             }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From 76f6162928b7e436796e23567787fbf27c28fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 009/173] fix: rust: recognize raw identifiers and raw
 lifetimes

---
 src/main/cpp/lang/rust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index b507c27..a1075cf 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -294,8 +294,8 @@ private:
             || expect_string_literal() //
             || expect_number() //
             || expect_lifetime_token() //
-            || expect_identifier_or_keyword() //
             || expect_raw_identifier() //
+            || expect_identifier_or_keyword() //
             || expect_punctuation();
     }
 
@@ -555,7 +555,7 @@ private:
     bool expect_lifetime_token()
     {
         // https://doc.rust-lang.org/reference/tokens.html#lifetimes-and-loop-labels
-        constexpr std::u8string_view raw_prefix = u8"'#r";
+        constexpr std::u8string_view raw_prefix = u8"'r#";
 
         if (!remainder.starts_with(u8'\'')) {
             return false;
-- 
2.43.0


From b29b285313e92ba9741aaa1dd3b371204b59889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 010/173] fix: rust: delimit raw strings by exactly as many
 hashes as they opened with

Also do not accept an apostrophe as the opening quote.
---
 src/main/cpp/lang/rust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index a1075cf..43eac28 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -465,7 +465,7 @@ private:
             : 0uz;
 
         if (const auto after_prefix = remainder.substr(prefix_length + raw_hash_length);
-            !after_prefix.starts_with(u8'\'') && !after_prefix.starts_with(u8'"')) {
+            !after_prefix.starts_with(u8'"')) {
             return false;
         }
 
@@ -500,7 +500,7 @@ private:
                         = ascii::length_before_not(remainder.substr(length + 1), u8'#');
                     if (terminating_hashes >= raw_hash_length) {
                         flush();
-                        emit_and_advance(1 + terminating_hashes, Highlight_Type::string_delim);
+                        emit_and_advance(1 + raw_hash_length, Highlight_Type::string_delim);
                         break;
                     }
                 }
-- 
2.43.0


From bc2b790e42cdd01b8e24778a9648d668c0959bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 011/173] fix: rust: no Unicode escapes in byte literals

---
 src/main/cpp/lang/rust.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 43eac28..8c2e6ff 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -418,7 +418,10 @@ private:
 
         case u8'\\': {
             const Escape_Result escape
-                = match_escape_sequence(remainder.substr(content_start), String_Type::string);
+                = match_escape_sequence(
+                    remainder.substr(content_start),
+                    is_byte ? String_Type::byte : String_Type::string
+                );
             if (!escape) {
                 return false;
             }
-- 
2.43.0


From 58d00562f79117f4d200cf884c2632bf1bea20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 012/173] fix: look at the extension in
 ulight_lang_from_path_u8

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..b09dea9 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From f5f735f84c428a8654c543469173927f74f4505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 013/173] fix: set the attribute name length in
 State::set_html_attr_name

---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..bc4500f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -484,7 +484,7 @@ struct [[nodiscard]] State {
     void set_html_attr_name(std::string_view name) noexcept
     {
         impl.html_attr_name = name.data();
-        impl.html_tag_name_length = name.length();
+        impl.html_attr_name_length = name.length();
     }
 
     void set_text_buffer(std::span<char> buffer)
-- 
2.43.0


From 05680cbd9278d17cec226dda74f0e23f08b2e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 014/173] fix: treat every number outside the list of languages
 as an invalid language

---
 src/main/cpp/ulight.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index b09dea9..93612eb 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -196,7 +196,7 @@ static_assert(std::ranges::none_of(ulight_lang_display_names, [](ulight_string_v
 ULIGHT_EXPORT
 ulight_string_view ulight_lang_display_name(ulight_lang lang) noexcept
 {
-    if (lang == ULIGHT_LANG_NONE || int(lang) >= int(ULIGHT_LANG_COUNT)) {
+    if (lang == ULIGHT_LANG_NONE || int(lang) < 0 || int(lang) >= int(ULIGHT_LANG_COUNT)) {
         return {};
     }
     return ulight_lang_display_names[std::size_t(lang)];
@@ -411,7 +411,8 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) < 0
+        || int(state->lang) >= int(ULIGHT_LANG_COUNT)) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From 8c07415350ca2e7b30921ad6cc373c1dac803be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 015/173] fix: return null from ulight_new if the allocation
 fails

---
 src/main/cpp/ulight.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 93612eb..deac4eb 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -354,6 +354,9 @@ ULIGHT_EXPORT
 ulight_state* ulight_new() noexcept
 {
     void* const result = ulight_alloc(sizeof(ulight_state), alignof(ulight_state));
+    if (!result) {
+        return nullptr;
+    }
     return ulight_init(static_cast<ulight_state*>(result));
 }
 
-- 
2.43.0


From a86faded3f92f89d45f722abf3ad8eb55b09cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 016/173] fix: use the long string name-delim for the
 name_delim highlight type

---
 include/ulight/ulight.hpp | 2 +-
 scripts/theme-to-css.cjs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index bc4500f..eb283cd 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -148,7 +148,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name, "name", "name", ULIGHT_HL_NAME)                                                        \
     F(name_decl, "name-decl", "name_decl", ULIGHT_HL_NAME_DECL)                                    \
     F(name_builtin, "name-builtin", "name_pre", ULIGHT_HL_NAME_BUILTIN)                            \
-    F(name_delim, "name-builtin-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                         \
+    F(name_delim, "name-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                         \
                                                                                                    \
     F(name_var, "name-var", "name_var", ULIGHT_HL_NAME_VAR)                                        \
     F(name_var_decl, "name-var-decl", "name_var_decl", ULIGHT_HL_NAME_VAR_DECL)                    \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 582d050..a627308 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -26,7 +26,7 @@ const longNameToShort = {
     "name": "name",
     "name-decl": "name_decl",
     "name-builtin": "name_pre",
-    "name-builtin-delim": "name_dlim",
+    "name-delim": "name_dlim",
     "name-var": "name_var",
     "name-var-decl": "name_var_decl",
     "name-var-builtin": "name_var_pre",
-- 
2.43.0


From 6f062ad6a6e414652d10eef1b74e01191a187142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 017/173] fix: give name_shell_command_delim its own short
 string

---
 include/ulight/ulight.hpp | 2 +-
 scripts/theme-to-css.cjs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index eb283cd..8eaace5 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -220,7 +220,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
     F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                                  \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index a627308..3afd2c1 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -74,7 +74,7 @@ const longNameToShort = {
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
     "name-command-builtin": "sh_cmd_pre",
-    "name-command": "name_cmd",
+    "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
     "name-option-builtin": "name_opt_pre",
-- 
2.43.0


From 382f639ea73940a28c606f7784a23cf1d3c8af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 018/173] fix: css: make progress on malformed UTF-8, and do
 not advance past the end

A stray continuation byte was an infinite loop, and a truncated sequence at the
end of the source advanced beyond it.
---
 src/main/cpp/lang/css.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..7ba277b 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -98,7 +98,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::size_t(utf8::decode_and_length_or_replacement(str).length);
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +398,7 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    advance(std::size_t(utf8::decode_and_length_or_replacement(remainder).length));
                 }
                 break;
             }
-- 
2.43.0


From 8091d8af323ec8f98f34523ee664860de0def973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 019/173] fix: cpp: do not advance past the end on truncated
 UTF-8 in a literal

---
 src/main/cpp/lang/cpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..e8fce26 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -811,7 +811,8 @@ public:
                 fresh_line = true;
                 return;
             }
-            const auto code_units = std::size_t(utf8::sequence_length(source[index], 1));
+            const auto code_units
+                = std::size_t(utf8::decode_and_length_or_replacement(remainder()).length);
             chars_length += code_units;
             advance(code_units);
         }
-- 
2.43.0


From 89f6e4c7dbdf599a2d218e254e7b7763d4645dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 020/173] fix: do not truncate the length of the string to int
 when decoding UTF-8

---
 include/ulight/impl/unicode.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ulight/impl/unicode.hpp b/include/ulight/impl/unicode.hpp
index 9e14002..8cd60d6 100644
--- a/include/ulight/impl/unicode.hpp
+++ b/include/ulight/impl/unicode.hpp
@@ -502,9 +502,8 @@ constexpr Code_Point_And_Length decode_and_length_or_replacement(const std::u8st
     }
     // Check each expected continuation byte.
     // Stop early if a byte is absent or invalid, returning the maximal subpart.
-    const int available = static_cast<int>(str.size());
     for (int i = 1; i < expected; ++i) {
-        if (i >= available) [[unlikely]] {
+        if (std::size_t(i) >= str.size()) [[unlikely]] {
             // Truncated at end of input: bytes [0, i) are a valid prefix.
             return { U'\N{REPLACEMENT CHARACTER}', i };
         }
-- 
2.43.0


From 818cdf291ffed5ebc1bde92af0a5ea98faef0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 021/173] fix: lua: do not emit empty tokens

Converting -- at the end of the source to HTML failed an assertion.
---
 src/main/cpp/lang/lua.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..8839780 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -528,6 +528,9 @@ bool highlight_lua(
 )
 {
     const auto emit = [&](std::size_t begin, std::size_t length, Highlight_Type type) {
+        if (length == 0) {
+            return;
+        }
         const bool coalesce = options.coalescing //
             && !out.empty() //
             && Highlight_Type(out.back().type) == type //
-- 
2.43.0


From e49cb8d93c617c29b08842f1cd9d208bfedfc580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 022/173] fix: do not end tokens in the middle of a UTF-8 code
 unit sequence

---
 include/ulight/impl/escapes.hpp     | 25 ++++++++++++++++++++-----
 include/ulight/impl/highlighter.hpp | 11 +++++++++++
 src/main/cpp/lang/bash.cpp          |  5 ++++-
 src/main/cpp/lang/cowel.cpp         |  4 ++--
 src/main/cpp/lang/cpp.cpp           |  8 ++++++--
 src/main/cpp/lang/java.cpp          |  4 ++--
 src/main/cpp/lang/js.cpp            |  4 ++--
 src/main/cpp/lang/kotlin.cpp        |  2 +-
 src/main/cpp/lang/lua.cpp           |  6 ++++--
 src/main/cpp/lang/nasm.cpp          |  2 +-
 src/main/cpp/lang/tex.cpp           |  5 ++++-
 src/main/cpp/lang/xml.cpp           |  4 ++--
 src/main/cpp/lang/yaml.cpp          |  6 +++---
 13 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..c6739e2 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -9,6 +9,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/platform.h"
+#include "ulight/impl/unicode.hpp"
 
 namespace ulight {
 
@@ -101,6 +102,16 @@ constexpr std::size_t escape_type_max_length(Common_Escape type)
     return 0;
 }
 
+/// @brief Returns the length in code units of an escape sequence consisting of
+/// the first code unit in `str` (typically a backslash) and the code point following it.
+[[nodiscard]]
+constexpr std::size_t match_single_character_escape(std::u8string_view str)
+{
+    return str.empty()
+        ? 0
+        : 1 + std::size_t(utf8::decode_and_length_or_replacement(str.substr(1)).length);
+}
+
 namespace detail {
 
 template <typename Predicate>
@@ -159,12 +170,16 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
-        str = str.substr(0, min(min_length, str.length()));
-        if (str.length() < min_length) {
-            return { .length = str.length(), .erroneous = true };
+        std::size_t length = min(min_length, str.length());
+        if (length == min_length && all_of(str.substr(0, length), hex_digit_lambda)) {
+            return { .length = length, .erroneous = false };
+        }
+        // An erroneous escape could contain non-ASCII characters,
+        // and must not end in the middle of such a character.
+        while (length != 0 && length < str.length() && (str[length] & 0xC0) == 0x80) {
+            --length;
         }
-        const bool all_hex = all_of(str, hex_digit_lambda);
-        return { .length = str.length(), .erroneous = !all_hex };
+        return { .length = length, .erroneous = true };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index da6b980..2ab84df 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -9,6 +9,7 @@
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/parse_utils.hpp"
+#include "ulight/impl/unicode.hpp"
 
 namespace ulight {
 
@@ -66,6 +67,16 @@ protected:
         return remainder.empty();
     }
 
+    /// @brief Returns the length of the first code point in `remainder`, in code units,
+    /// or zero if `remainder` is empty.
+    /// This should be used instead of `1` for tokens that can start with any character
+    /// because a token should not end in the middle of a UTF-8 code unit sequence.
+    [[nodiscard]]
+    std::size_t code_point_length() const
+    {
+        return std::size_t(utf8::decode_and_length_or_replacement(remainder).length);
+    }
+
     /// @brief Emits a single token into the output buffer,
     /// or coalesces it into the most recent token.
     /// @param begin The start index within the source file of the token.
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 7c58241..ffbcce5 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -3,6 +3,7 @@
 #include <string_view>
 
 #include "ulight/impl/ascii_algorithm.hpp"
+#include "ulight/impl/escapes.hpp"
 #include "ulight/ulight.hpp"
 
 #include "ulight/impl/highlight.hpp"
@@ -319,7 +320,9 @@ private:
             advance(1);
         }
         else {
-            emit_and_advance(std::min(2uz, remainder.length()), Highlight_Type::string_escape);
+            emit_and_advance(
+                match_single_character_escape(remainder), Highlight_Type::string_escape
+            );
         }
     }
 
diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index b578562..c6725d4 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -469,7 +469,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(code_point_length(), Highlight_Type::error);
             }
         }
 
@@ -553,7 +553,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(code_point_length(), Highlight_Type::error);
             }
         }
 
diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e8fce26..b34e2d8 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -448,7 +448,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     }
 
     default: {
-        return { .length = 2,
+        return { .length = match_single_character_escape(str),
                  .type = Escape_Type::conditional,
                  .erroneous = !is_cpp_basic(str[1]) };
     }
@@ -838,7 +838,11 @@ public:
             return;
         }
         if (rem[d_char_sequence_length + 1] != u8'(') {
-            emit_and_advance(d_char_sequence_length + 2, Highlight_Type::error);
+            const auto [_, error_length]
+                = utf8::decode_and_length_or_replacement(rem.substr(d_char_sequence_length + 1));
+            emit_and_advance(
+                d_char_sequence_length + 1 + std::size_t(error_length), Highlight_Type::error
+            );
             return;
         }
         rem.remove_prefix(d_char_sequence_length + 2);
diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index fc1b436..45728ad 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -341,10 +341,10 @@ private:
         }
         else if (!remainder.empty() && remainder[0] != u8'\'' //
                  && remainder[0] != u8'\r' && remainder[0] != u8'\n') {
-            emit_and_advance(1, Highlight_Type::string);
+            emit_and_advance(code_point_length(), Highlight_Type::string);
         }
         else if (!remainder.empty()) {
-            emit_and_advance(1, Highlight_Type::error);
+            emit_and_advance(code_point_length(), Highlight_Type::error);
         }
 
         if (!remainder.empty() && remainder[0] == u8'\'') {
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index d258620..5a2fb7d 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -287,7 +287,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
     }
     default: {
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
-        return { .length = 2 };
+        return { .length = match_single_character_escape(str) };
     }
     }
 }
@@ -997,7 +997,7 @@ private:
 
     void consume_error()
     {
-        emit_and_advance(1, Highlight_Type::error);
+        emit_and_advance(code_point_length(), Highlight_Type::error);
         input_element = Input_Element::regex;
     }
 
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9d24fda..b7030a9 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -497,7 +497,7 @@ private:
                 consume_dotted_annotation_name();
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(code_point_length(), Highlight_Type::error);
             }
         }
         if (!remainder.empty() && remainder[0] == u8']') {
diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 8839780..91d48c4 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -683,8 +683,10 @@ bool highlight_lua(
             continue;
         }
 
-        emit(index, 1, Highlight_Type::symbol);
-        index++;
+        const auto [_, symbol_length]
+            = utf8::decode_and_length_or_replacement(source.substr(index));
+        emit(index, std::size_t(symbol_length), Highlight_Type::symbol);
+        index += std::size_t(symbol_length);
     }
 
     return true;
diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3f28f46..540b6c4 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -55,7 +55,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
         return match_common_escape<Common_Escape::hex_8>(str, 2);
     }
     default: {
-        return { .length = 2uz, .erroneous = true };
+        return { .length = match_single_character_escape(str), .erroneous = true };
     }
     }
 }
diff --git a/src/main/cpp/lang/tex.cpp b/src/main/cpp/lang/tex.cpp
index 55ed495..d25a4f4 100644
--- a/src/main/cpp/lang/tex.cpp
+++ b/src/main/cpp/lang/tex.cpp
@@ -6,6 +6,7 @@
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/buffer.hpp"
+#include "ulight/impl/escapes.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
 
@@ -65,7 +66,9 @@ struct Highlighter : Highlighter_Base {
                     // While TeX doesn't really distinguish between '\{' and '\abc'
                     // as being escape sequences or commands,
                     // it is helpful for highlighting if we do that.
-                    emit_and_advance(2, Highlight_Type::string_escape);
+                    emit_and_advance(
+                        match_single_character_escape(remainder), Highlight_Type::string_escape
+                    );
                     break;
                 }
                 emit_and_advance(name_length, Highlight_Type::markup_tag);
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9dec07c..16aae3f 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -748,10 +748,10 @@ private:
                 if (piece_length) {
                     emit_and_advance(piece_length, type);
                 }
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
 
                 piece_length = 0;
-                total_length += 1;
+                total_length += std::size_t(length);
             }
             else {
                 piece_length += std::size_t(length);
diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 6bf4010..faa98b9 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -443,7 +443,7 @@ private:
                 advance(1);
             }
             else {
-                emit_and_advance(1, Highlight_Type::string);
+                emit_and_advance(code_point_length(), Highlight_Type::string);
             }
         }
         skip_line();
@@ -853,7 +853,7 @@ private:
             emit_and_advance(2, Highlight_Type::name_attr_delim);
             while (!remainder.empty() && remainder[0] != u8'>' && remainder[0] != u8'\r'
                    && remainder[0] != u8'\n') {
-                emit_and_advance(1, Highlight_Type::name_attr);
+                emit_and_advance(code_point_length(), Highlight_Type::name_attr);
             }
             if (!remainder.empty() && remainder[0] == u8'>') {
                 emit_and_advance(1, Highlight_Type::name_attr_delim);
@@ -892,7 +892,7 @@ private:
     void consume_tag_suffix()
     {
         while (!remainder.empty() && !is_yaml_word_terminator(remainder[0])) {
-            emit_and_advance(1, Highlight_Type::name_attr);
+            emit_and_advance(code_point_length(), Highlight_Type::name_attr);
         }
     }
 
-- 
2.43.0


From cfeb084acc9b5acd84cc1d73507a5c25328faaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 023/173] fix: yaml: do not recurse once per block entry

Nested block nodes were only left upon some de-dents,
so that highlighting large YAML files exhausted the stack.
A line of only spaces also ended the document.
---
 src/main/cpp/lang/yaml.cpp | 112 +++++--------------------------------
 1 file changed, 14 insertions(+), 98 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index faa98b9..911c315 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,7 +1,6 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
-#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -210,51 +209,6 @@ namespace {
 struct Highlighter : Highlighter_Base {
     // https://yaml.org/spec/1.2.2/
 
-    /// @brief Stack of indentation levels for block structures.
-    /// Used to detect when a block collection ends (de-dent).
-    struct Indent_Stack {
-        std::pmr::vector<std::size_t> data;
-
-        explicit Indent_Stack(std::pmr::memory_resource* memory)
-            : data { memory }
-        {
-        }
-
-        void push(std::size_t n)
-        {
-            // Sibling entries share one level.
-            if (data.empty() || data.back() != n) {
-                data.push_back(n);
-            }
-        }
-
-        [[nodiscard]]
-        std::size_t top() const
-        {
-            return data.empty() ? 0 : data.back();
-        }
-
-        void pop()
-        {
-            ULIGHT_ASSERT(!data.empty());
-            data.pop_back();
-        }
-
-        [[nodiscard]]
-        bool empty() const
-        {
-            return data.empty();
-        }
-
-        void reset()
-        {
-            data.clear();
-        }
-    };
-
-    Indent_Stack indent_stack;
-
-public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
@@ -262,7 +216,6 @@ public:
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
-        , indent_stack { memory }
     {
     }
 
@@ -371,7 +324,6 @@ private:
     void consume_document()
     {
         // https://yaml.org/spec/1.2.2/#l-any-document
-        indent_stack.reset();
         consume_whitespace_and_comments();
         if (eof()) {
             return;
@@ -406,7 +358,7 @@ private:
         }
 
         // Parse the document body (a block node at indent -1 conceptually)
-        consume_block_node(0, 0);
+        consume_block_nodes();
     }
 
     void consume_directives()
@@ -526,18 +478,14 @@ private:
         }
     }
 
-    /// @brief Consume a block node at the given indentation level.
-    /// @param block_indent The indentation level of the parent block collection.
-    /// @param seq_offset Extra indentation offset for nested block sequences
-    ///   (to account for the "- " prefix being perceived as indentation).
-    void consume_block_node(const std::size_t block_indent, const std::size_t seq_offset)
+    /// @brief Consumes the entries of a block node up to the end of the document.
+    /// The entries of nested block nodes are highlighted just like those of the outer nodes,
+    /// so all of them are consumed in a single loop,
+    /// rather than by recursing into nested nodes.
+    /// The required call stack does therefore not depend on the number of entries.
+    void consume_block_nodes()
     {
-        // Each sequence entry opens another level for whatever follows it,
-        // so the levels are kept in a stack instead of recursing once per entry.
-        std::pmr::vector<std::size_t> effective_indents { memory };
-        effective_indents.push_back(block_indent - seq_offset);
-        while (!eof() && !effective_indents.empty()) {
-            const std::size_t effective_indent = effective_indents.back();
+        while (!eof()) {
             // Skip blank lines and comment lines, preserving indentation.
             skip_blank_and_comment_lines();
             if (eof()) {
@@ -552,16 +500,6 @@ private:
                 return;
             }
 
-            // Check for de-dent.
-            if (line_indent < effective_indent && !indent_stack.empty()
-                && line_indent <= indent_stack.top()) {
-                while (!indent_stack.empty() && line_indent <= indent_stack.top()) {
-                    indent_stack.pop();
-                }
-                effective_indents.pop_back();
-                continue;
-            }
-
             // Consume the indentation (no highlighting).
             consume_indent(line_indent);
 
@@ -581,13 +519,8 @@ private:
                     consume_indent(line_indent);
                     emit_and_advance(1, Highlight_Type::symbol_punc);
                     consume_whitespace_and_comments();
-                    if (!remainder.empty() && !match_line_break(remainder)
-                        && remainder[0] != u8'#') {
-                        consume_block_node(line_indent, 0);
-                    }
-                    else {
+                    if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
                         skip_line();
-                        consume_block_node(line_indent, 0);
                     }
                 }
                 continue;
@@ -607,8 +540,6 @@ private:
                 if (!remainder.empty() && match_line_break(remainder)) {
                     skip_line();
                 }
-                indent_stack.push(line_indent);
-                effective_indents.push_back(line_indent);
                 continue;
             }
 
@@ -624,7 +555,6 @@ private:
 
             // Handle block mapping entry: key: value
             if (try_consume_block_mapping_key(line_indent)) {
-                indent_stack.push(line_indent);
                 continue;
             }
 
@@ -635,7 +565,8 @@ private:
                 continue;
             }
 
-            effective_indents.pop_back();
+            // Otherwise, the line consists only of indentation.
+            skip_line();
         }
     }
 
@@ -699,14 +630,6 @@ private:
                         if (!remainder.empty()
                             && (remainder.starts_with(u8"- ") || remainder.starts_with(u8"? "))) {
                             skip_line();
-                            skip_blank_and_comment_lines();
-                            if (!remainder.empty() && remainder[0] != u8'\r'
-                                && remainder[0] != u8'\n') {
-                                const std::size_t next_indent = current_indent();
-                                if (next_indent > line_indent) {
-                                    consume_block_node(line_indent, 0);
-                                }
-                            }
                             return true;
                         }
 
@@ -725,15 +648,8 @@ private:
                         }
                         skip_line();
 
-                        // If value was on the next line(s), parse block value.
-                        skip_blank_and_comment_lines();
-                        if (!remainder.empty() && !match_line_break(remainder)) {
-                            const std::size_t next_indent = current_indent();
-                            if (next_indent > line_indent) {
-                                consume_block_node(line_indent, 0);
-                            }
-                        }
-
+                        // If the value was on the next line(s),
+                        // its entries are consumed by consume_block_nodes.
                         return true;
                     }
                 }
@@ -753,8 +669,8 @@ private:
         }
 
         // Compact sequence: another "- " on the same line
+        // The entry is consumed by consume_block_nodes.
         if (remainder.starts_with(u8"- ")) {
-            consume_block_node(indent, 1);
             return;
         }
 
-- 
2.43.0


From fcacb269aebe0e21bc13c835d304130b5da73eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 024/173] fix: yaml: highlight the colon after a key that is
 followed by whitespace

---
 src/main/cpp/lang/yaml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 911c315..c44fe30 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -611,6 +611,9 @@ private:
                         const std::u8string_view key_part = remainder.substr(0, colon_pos);
                         consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
 
+                        // Whitespace between the key and the colon is not part of either.
+                        consume_inline_whitespace();
+
                         // Highlight the colon
                         emit_and_advance(1, Highlight_Type::symbol_punc);
 
-- 
2.43.0


From f66420bf4ef9dc2fa1ce2f3149689ffdb0ae82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 025/173] fix: coalesce the first token of a nested language
 with the preceding token

---
 include/ulight/impl/highlighter.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index 2ab84df..56997e7 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -167,7 +167,14 @@ protected:
             for (std::size_t i = 0; i < amount; ++i) {
                 tokens[i].begin += self.index;
             }
-            self.out.append_range(std::span<const Token> { tokens, amount });
+            std::span<const Token> nested { tokens, amount };
+            if (self.options.coalescing && !nested.empty() && !self.out.empty()
+                && self.out.back().type == nested.front().type
+                && self.out.back().begin + self.out.back().length == nested.front().begin) {
+                self.out.back().length += nested.front().length;
+                nested = nested.subspan(1);
+            }
+            self.out.append_range(nested);
         };
         return { data.data(), data.size(), this, flush };
     }
-- 
2.43.0


From b05936038be36eb2f5227fb316822d0b7a36a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 026/173] fix: restore flush_tokens at the end of
 ulight_source_to_html

---
 src/main/cpp/ulight.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index deac4eb..55edb02 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -536,10 +536,17 @@ ulight_status ulight_source_to_html(ulight_state* state) noexcept
     ulight::Function_Ref<void( ulight_token*, std::size_t)> flush_text_ref = flush_text;
 
     // clang-format on
+    const void* const user_flush_tokens_data = state->flush_tokens_data;
+    const auto user_flush_tokens = state->flush_tokens;
     state->flush_tokens_data = flush_text_ref.get_entity();
     state->flush_tokens = flush_text_ref.get_invoker();
 
     const ulight_status result = ulight_source_to_tokens(state);
+
+    // The state must not keep pointing to our local callback,
+    // which would dangle once we return.
+    state->flush_tokens_data = user_flush_tokens_data;
+    state->flush_tokens = user_flush_tokens;
     if (result != ULIGHT_STATUS_OK) {
         return result;
     }
-- 
2.43.0


From 72befac32910304cadb0aa0b295f3adafcf47405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 027/173] fix: judge digit separators by the digit sequence,
 not by what follows it

A sequence with a trailing separator was erroneous only at the end of the
source, and an empty sequence (as in '5.') was erroneous there and nowhere else.
Separators are allowed anywhere in Rust numbers.
---
 include/ulight/impl/numbers.hpp |  3 +++
 src/main/cpp/lang/rust.cpp      |  1 +
 src/main/cpp/parse_utils.cpp    | 16 +++++++++-------
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/ulight/impl/numbers.hpp b/include/ulight/impl/numbers.hpp
index 44487c3..7cf950a 100644
--- a/include/ulight/impl/numbers.hpp
+++ b/include/ulight/impl/numbers.hpp
@@ -96,6 +96,9 @@ struct Common_Number_Options {
     /// @brief An optional digit separator which is accepted as part of digit sequences
     /// in addition to the set of digits determined by the base.
     char8_t digit_separator = 0;
+    /// @brief If `true`, digit separators may also be leading, trailing, or consecutive,
+    /// like in Rust, where `1__0` and `0x_1_u8` are valid.
+    bool separators_anywhere = false;
     /// @brief If `true`, the integer part shall not be empty, even if there is a fraction,
     /// like `.5f`.
     bool nonempty_integer = false;
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 8c2e6ff..a2bb342 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -134,6 +134,7 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .match_suffix = Constant<match_suffix> {},
         .digit_separator = digit_separator,
+        .separators_anywhere = true,
         .nonempty_integer = true,
     };
     Common_Number_Result result = match_common_number(str, options);
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a289886..ab70c70 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -150,14 +150,16 @@ Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t s
     const std::size_t length = ascii::length_if(str, [&](char8_t c) {
         if (c == separator) {
             erroneous |= previous == separator;
-            previous = c;
-            return true;
         }
-        const bool is_digit = is_ascii_digit_base(c, base);
+        else if (!is_ascii_digit_base(c, base)) {
+            return false;
+        }
         previous = c;
-        return is_digit;
+        return true;
     });
-    erroneous |= previous == separator;
+    // An empty sequence is not erroneous;
+    // whether it is allowed depends on where it appears in the number.
+    erroneous |= length != 0 && previous == separator;
 
     return { .length = length, .erroneous = erroneous };
 }
@@ -198,7 +200,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             = match_separated_digits(str.substr(length), base, options.digit_separator);
         result.integer = integer_digits;
         result.erroneous |= options.nonempty_integer && integer_digits == 0;
-        result.erroneous |= integer_error;
+        result.erroneous |= integer_error && !options.separators_anywhere;
         length += result.integer;
     }
 
@@ -209,7 +211,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             = match_separated_digits(str.substr(length + 1), base, options.digit_separator);
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
-        result.erroneous |= fractional_error;
+        result.erroneous |= fractional_error && !options.separators_anywhere;
 
         // Handle degenerate case of standalone '.' with no prefix, no integer part,
         // and no fraction.
-- 
2.43.0


From 3a3f3e9cc6be77b9f07c541e27ee7b759ed6a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 028/173] fix: accept digit separators in the exponent of a
 number

---
 src/main/cpp/parse_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index ab70c70..86c71ee 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -236,9 +236,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             result.exponent_sep = s.str.length();
             length += result.exponent_sep;
 
-            const std::size_t exp_digits = match_digits(str.substr(length));
+            const auto [exp_digits, exp_error]
+                = match_separated_digits(str.substr(length), 10, options.digit_separator);
             result.exponent_digits += exp_digits;
             result.erroneous |= exp_digits == 0;
+            result.erroneous |= exp_error && !options.separators_anywhere;
             length += exp_digits;
             break;
         }
-- 
2.43.0


From 3fb15f1dbaf922ae2838a9def773125c94a622e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 029/173] fix: match the longest suffix of a number, and
 require digits after a prefix

In Kotlin, '1UL' was highlighted as '1U' followed by the name 'L'.
---
 src/main/cpp/parse_utils.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 86c71ee..2cc65e6 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -249,12 +249,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     if (length < str.length()) {
         if (!options.suffixes.empty()) {
             for (const std::u8string_view suffix : options.suffixes) {
-                if (str.substr(length).starts_with(suffix)) {
+                if (suffix.length() > result.suffix && str.substr(length).starts_with(suffix)) {
                     result.suffix = suffix.length();
-                    length += result.suffix;
-                    break;
                 }
             }
+            length += result.suffix;
         }
         else if (options.match_suffix) {
             const std::size_t suffix = options.match_suffix(str.substr(length));
@@ -264,7 +263,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     }
 
     result.length = length;
-    result.erroneous |= result.prefix == length;
+    result.erroneous |= result.prefix != 0 && result.integer + result.fractional == 0;
     ULIGHT_DEBUG_ASSERT(
         (result.sign + result.prefix + result.integer + result.radix_point + result.fractional
          + result.exponent_sep + result.exponent_digits + result.suffix)
-- 
2.43.0


From 41572476965d150e6994a0edb63942b07a5ef5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 030/173] fix: js: do not split decimal digits 8 and 9 from
 numbers with a leading zero

'0.19' was highlighted as '0.1' followed by '9'.
---
 src/main/cpp/lang/js.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 5a2fb7d..95b3fc2 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -362,7 +362,6 @@ Common_Number_Result match_numeric_literal(std::u8string_view str)
         .prefixes = prefixes,
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
-        .default_leading_zero_base = 8,
         .digit_separator = digit_separator,
     };
     Common_Number_Result result = match_common_number(str, options);
-- 
2.43.0


From ddf700022ae69803b45db431e65eb01258a7a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 031/173] fix: python: numbers such as '.5' are valid

---
 src/main/cpp/lang/python.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index ff8b430..0c4b969 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -138,7 +138,6 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
-        .nonempty_integer = true,
     };
     return match_common_number(str, options);
 }
-- 
2.43.0


From d78b99bebb9b06cbd31f56dedc984ae570ae3827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 032/173] fix: rust: keep the dots of ranges, tuple indices,
 and method calls out of numbers

'0..9' and 'pair.0' contained errors.
---
 src/main/cpp/lang/rust.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index a2bb342..9cd55b7 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -135,9 +135,19 @@ Common_Number_Result match_number(const std::u8string_view str)
         .match_suffix = Constant<match_suffix> {},
         .digit_separator = digit_separator,
         .separators_anywhere = true,
-        .nonempty_integer = true,
     };
+    if (str.empty() || !is_ascii_digit(str[0])) {
+        return {};
+    }
     Common_Number_Result result = match_common_number(str, options);
+    if (result.radix_point && result.fractional == 0) {
+        // The dot in e.g. "0..9" or "1.max(2)" is not part of the number.
+        const std::size_t length = result.prefix + result.integer;
+        const std::u8string_view after_dot = str.substr(length + 1);
+        if (after_dot.starts_with(u8'.') || match_identifier(after_dot)) {
+            return { .length = length, .integer = length };
+        }
+    }
     if (result.is_integer()) {
         if (result.suffix) {
             // https://doc.rust-lang.org/reference/grammar.html#grammar-summary-SUFFIX_NO_E
-- 
2.43.0


From cd0b3078a0dee7d358d28b359f7e81aae4ec8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 033/173] fix: kotlin: keep the dot of a member access out of
 the number before it

'5.toFloat()' worked, but '5.foo()' was highlighted as '5.f' followed by 'oo',
and '5.exp()' was an error.
---
 src/main/cpp/lang/kotlin.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index b7030a9..cb7e43e 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -82,12 +82,15 @@ Common_Number_Result match_number(std::u8string_view str)
         .digit_separator = digit_separator,
     };
     Common_Number_Result result = match_common_number(str, options);
-    result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
-    if (result.radix_point && result.fractional == 0 && result.length < str.length()
-        && str[result.length] == u8'.') {
-        result.radix_point = 0;
-        --result.length;
+    if (result.radix_point && result.fractional == 0) {
+        // The dot in e.g. "0..9" or "1.toDouble()" is not part of the number.
+        const std::size_t length = result.prefix + result.integer;
+        const std::u8string_view after_dot = str.substr(length + 1);
+        if (after_dot.starts_with(u8'.') || cpp::match_identifier(after_dot)) {
+            result = match_common_number(str.substr(0, length), options);
+        }
     }
+    result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
     return result;
 }
 
-- 
2.43.0


From f4230dad9110a396883bc8ad7141638a5df74c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 034/173] fix: do not shift by a negative number of bits in
 Charset::range_before

If the range ended before the last limb, characters in later limbs were
added to the set.
---
 include/ulight/impl/charset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/charset.hpp b/include/ulight/impl/charset.hpp
index 59e3a5a..042f6d1 100644
--- a/include/ulight/impl/charset.hpp
+++ b/include/ulight/impl/charset.hpp
@@ -27,7 +27,8 @@ struct Charset {
         for (std::size_t limb = 0; limb < limb_count; ++limb) {
             const std::size_t begin = limb * limb_width;
             const std::size_t lo = i > begin ? i - begin : 0;
-            const std::size_t hi = j < begin + limb_width ? j - begin : limb_width;
+            const std::size_t hi
+                = j <= begin ? 0 : (j < begin + limb_width ? j - begin : limb_width);
             if (lo < hi) {
                 const limb_type lo_mask = all_bits << lo;
                 const limb_type hi_mask = hi == limb_width ? all_bits : (limb_type { 1 } << hi) - 1;
-- 
2.43.0


From cd18cf945f2122e327524327e716d860d70824a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 035/173] fix: end blank line sequences with a line feed at the
 end of the string

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 2cc65e6..bca7d9b 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -66,7 +66,7 @@ Blank_Line find_blank_line_sequence // NOLINT(bugprone-exception-escape)
 
     static_assert(!Blank_Line {}, "A value-initialized Blank_Line should be falsy");
     if (state == State::blank) {
-        return { .begin = blank_begin, .length = str.size() - blank_begin };
+        return { .begin = blank_begin, .length = blank_end - blank_begin };
     }
     return {};
 }
-- 
2.43.0


From 038edeac570148e37d0a2064c263930de97c0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 036/173] fix: reject unrepresentable and partial literals in
 parse_integer_literal

---
 src/main/cpp/parse_utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index bca7d9b..a85ecbc 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -1,8 +1,10 @@
 #include <charconv>
 #include <cstddef>
+#include <limits>
 #include <optional>
 #include <string_view>
 #include <system_error>
+#include <utility>
 
 #include "ulight/ulight.hpp"
 
@@ -79,7 +81,7 @@ std::optional<unsigned long long> parse_uinteger_digits(std::u8string_view text,
     unsigned long long value;
     const std::from_chars_result result
         = std::from_chars(sv.data(), sv.data() + sv.size(), value, base);
-    if (result.ec != std::errc {}) {
+    if (result.ec != std::errc {} || result.ptr != sv.data() + sv.size()) {
         return {};
     }
     return value;
@@ -121,13 +123,17 @@ std::optional<long long> parse_integer_literal(std::u8string_view str) noexcept
         return std::nullopt;
     }
     if (str.starts_with(u8'-')) {
-        if (auto positive = parse_uinteger_literal(str.substr(1))) {
+        constexpr auto max_magnitude
+            = static_cast<unsigned long long>(std::numeric_limits<long long>::max()) + 1;
+        if (const auto positive = parse_uinteger_literal(str.substr(1));
+            positive && *positive <= max_magnitude) {
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<long long>(-*positive);
         }
         return std::nullopt;
     }
-    if (auto result = parse_uinteger_literal(str)) {
+    if (const auto result = parse_uinteger_literal(str);
+        result && std::in_range<long long>(*result)) {
         return static_cast<long long>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From 4de9200343d28e9408e762ff3e3a665c0c6d8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 037/173] fix: do not read an uninitialized blank_end

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a85ecbc..88bea7d 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -32,7 +32,7 @@ Blank_Line find_blank_line_sequence // NOLINT(bugprone-exception-escape)
     State state = State::maybe_blank;
 
     std::size_t blank_begin = 0;
-    std::size_t blank_end;
+    std::size_t blank_end = 0;
 
     for (std::size_t i = 0; i < str.size(); ++i) {
         switch (state) {
-- 
2.43.0


From 294ac258e2d628fe1c7e1ab7cee3c067e1514f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 038/173] fix: braced escapes are erroneous if they are empty
 or unterminated

---
 include/ulight/impl/escapes.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index c6739e2..1e6ce84 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -122,12 +122,9 @@ constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predi
     }
     const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
     const std::u8string_view digits = str.substr(1, length_without_brace - 1);
-    const bool erroneous = length_without_brace <= 1 || !all_of(digits, p);
-    const std::size_t length
-        = length_without_brace == str.length() || str[length_without_brace] != u8'}'
-        ? length_without_brace
-        : length_without_brace + 1;
-    return { .length = length, .erroneous = erroneous };
+    const bool terminated = length_without_brace != str.length();
+    const bool erroneous = !terminated || digits.empty() || !all_of(digits, p);
+    return { .length = length_without_brace + std::size_t(terminated), .erroneous = erroneous };
 }
 
 } // namespace detail
@@ -190,7 +187,7 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
         if (index == std::u8string_view::npos) {
             return { .length = str.length(), .erroneous = true };
         }
-        return { .length = index + 1 };
+        return { .length = index + 1, .erroneous = index == 1 };
     }
 
     else if constexpr (type == Common_Escape::hex_braced) {
-- 
2.43.0


From 2131d0d1b670217178ecbe97dcd4342c2c3491ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 039/173] fix: nasm: octal escapes may consist of a single
 digit

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 540b6c4..5560cbe 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -43,7 +43,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     case u8'5':
     case u8'6':
     case u8'7': {
-        return match_common_escape<Common_Escape::octal_1_to_2>(str, 2);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
     case u8'x': {
         return match_common_escape<Common_Escape::hex_1_to_2>(str, 2);
-- 
2.43.0


From 20d3adabb6b8b0878962803d175fdb9c7aa31093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 040/173] fix: keep erroneous escapes within the surrounding
 literal

An erroneous escape such as '\u' in '"\u1"' included the closing quote.
---
 include/ulight/impl/escapes.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 1e6ce84..ac3647f 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -114,9 +114,19 @@ constexpr std::size_t match_single_character_escape(std::u8string_view str)
 
 namespace detail {
 
+/// @brief Returns the part of `str` before the first quote, backslash, or line terminator.
+/// An erroneous escape must not reach beyond that
+/// because it would otherwise prevent the end of the surrounding literal from being recognized.
+[[nodiscard]]
+constexpr std::u8string_view escape_extent(std::u8string_view str)
+{
+    return str.substr(0, min(str.length(), str.find_first_of(u8"\"'`\\\r\n")));
+}
+
 template <typename Predicate>
 constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predicate p)
 {
+    str = escape_extent(str);
     if (!str.starts_with(u8'{')) {
         return { .length = 0, .erroneous = true };
     }
@@ -167,6 +177,7 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
+        str = detail::escape_extent(str);
         std::size_t length = min(min_length, str.length());
         if (length == min_length && all_of(str.substr(0, length), hex_digit_lambda)) {
             return { .length = length, .erroneous = false };
@@ -180,6 +191,7 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
+        str = detail::escape_extent(str);
         if (!str.starts_with(u8'{')) {
             return { .length = 0, .erroneous = true };
         }
-- 
2.43.0


From d0bb015799788079a28719814d285dbd6ef28c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 041/173] fix: python: octal escapes have one to three digits

---
 src/main/cpp/lang/python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 0c4b969..f6d6a88 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -164,7 +164,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str, const String_P
         // Note that while octal escapes with a value above 255 produce a `SyntaxWarning`
         // as of Python 3.12, they do not raise an error yet,
         // so we don't highlight them as an error.
-        return match_common_escape<Common_Escape::octal_3>(str, 1);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
 
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
-- 
2.43.0


From 02cbc07a011695a2846edfd13a2b5523ad2fbaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 042/173] fix: rust: do not treat the left operand of != as a
 macro

---
 src/main/cpp/lang/rust.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 9cd55b7..d457c3c 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -77,6 +77,13 @@ constexpr bool is_illegal_raw_identifier(std::u8string_view id)
         || id == u8"_"sv;
 }
 
+/// @brief Returns `true` iff the `!` that follows a macro name is at the start of `str`,
+/// and not e.g. the `!=` operator.
+constexpr bool is_macro_delimiter_next(std::u8string_view str)
+{
+    return str.starts_with(u8'!') && !str.starts_with(u8"!=");
+}
+
 } // namespace
 
 // I don't think this is 100% correct and the same as C++.
@@ -355,7 +362,7 @@ private:
         if (is_illegal_raw_identifier(id)) {
             emit_and_advance(prefix.length() + id_length, Highlight_Type::error);
         }
-        else if (remainder.substr(prefix.length() + id_length).starts_with(u8'!')) {
+        else if (is_macro_delimiter_next(remainder.substr(prefix.length() + id_length))) {
             // https://doc.rust-lang.org/reference/macros.html
             emit_and_advance(prefix.length(), Highlight_Type::name_macro_delim);
             emit_and_advance(id_length, Highlight_Type::name_macro);
@@ -381,7 +388,7 @@ private:
         if (type) {
             emit_and_advance(length, token_type_highlight(*type));
         }
-        else if (remainder.substr(length).starts_with(u8'!')) {
+        else if (is_macro_delimiter_next(remainder.substr(length))) {
             emit_and_advance(length, Highlight_Type::name_macro);
             emit_and_advance(1, Highlight_Type::name_macro_delim);
         }
-- 
2.43.0


From c3bf268e81f9e0b7dbb9fe3402af04e11fbd66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 043/173] fix: rust: block comments nest

---
 src/main/cpp/lang/rust.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index d457c3c..22191e9 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -260,11 +260,38 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
 }
 
 using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
 
 namespace {
 
+[[nodiscard]]
+Comment_Result match_block_comment(std::u8string_view str)
+{
+    // https://doc.rust-lang.org/reference/comments.html
+    if (!str.starts_with(u8"/*")) {
+        return {};
+    }
+    // Unlike in many other languages, block comments can be nested.
+    std::size_t depth = 0;
+    for (std::size_t length = 0; length < str.length();) {
+        const std::u8string_view remainder = str.substr(length);
+        if (remainder.starts_with(u8"/*")) {
+            ++depth;
+            length += 2;
+        }
+        else if (remainder.starts_with(u8"*/")) {
+            length += 2;
+            if (--depth == 0) {
+                return { .length = length, .is_terminated = true };
+            }
+        }
+        else {
+            ++length;
+        }
+    }
+    return { .length = str.length(), .is_terminated = false };
+}
+
 struct Highlighter : Highlighter_Base {
 
     Highlighter(
-- 
2.43.0


From 1694fd0edda1e17fb9652c5d937b9453da816c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 044/173] fix: rust: recognize the punctuation #, $, ~, and <-

---
 include/ulight/impl/lang/rust.hpp | 5 ++++-
 src/main/cpp/lang/rust.cpp        | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/rust.hpp b/include/ulight/impl/lang/rust.hpp
index 8a5a339..90fd03a 100644
--- a/include/ulight/impl/lang/rust.hpp
+++ b/include/ulight/impl/lang/rust.hpp
@@ -35,6 +35,8 @@ inline constexpr struct Is_Rust_Whitespace {
 #define ULIGHT_RUST_TOKEN_ENUM_DATA(F)                                                             \
     F(exclamation, "!", symbol_op)                                                                 \
     F(exclamation_eq, "!=", symbol_op)                                                             \
+    F(hash, "#", symbol_punc)                                                                      \
+    F(dollar, "$", symbol_punc)                                                                    \
     F(percent, "%", symbol_op)                                                                     \
     F(percent_eq, "%=", symbol_op)                                                                 \
     F(amp, "&", symbol_op)                                                                         \
@@ -160,7 +162,8 @@ inline constexpr struct Is_Rust_Whitespace {
     F(pipe, "|", symbol_op)                                                                        \
     F(pipe_eq, "|=", symbol_op)                                                                    \
     F(pipe_pipe, "||", symbol_op)                                                                  \
-    F(right_brace, "}", symbol_brace)
+    F(right_brace, "}", symbol_brace)                                                              \
+    F(tilde, "~", symbol_op)
 
 #define ULIGHT_RUST_TOKEN_ENUM_ENUMERATOR(id, code, highlight) id,
 
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 22191e9..8578a04 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -207,6 +207,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!': return str.starts_with(u8"!=") ? exclamation_eq : exclamation;
+    case u8'#': return hash;
+    case u8'$': return dollar;
     case u8'%': return str.starts_with(u8"%=") ? percent_eq : percent;
     case u8'&':
         return str.starts_with(u8"&&") ? amp_amp //
@@ -233,6 +235,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
         return str.starts_with(u8"<<=") ? lt_lt_eq
             : str.starts_with(u8"<<")   ? lt_lt
             : str.starts_with(u8"<=")   ? lt_eq
+            : str.starts_with(u8"<-")   ? lt_minus
                                         : lt;
     case u8'=':
         return str.starts_with(u8"==") ? eq_eq //
@@ -255,6 +258,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
             : str.starts_with(u8"||")  ? pipe_pipe
                                        : pipe;
     case u8'}': return right_brace;
+    case u8'~': return tilde;
     default: return {};
     }
 }
-- 
2.43.0


From 113c994bd06aafa661a4e0d2b72ca5bf2edb50e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 045/173] fix: rust: keep the dot of a member access to a name
 with a leading underscore out of numbers

---
 src/main/cpp/lang/rust.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 8578a04..b26ba4c 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -147,8 +147,9 @@ Common_Number_Result match_number(const std::u8string_view str)
         return {};
     }
     Common_Number_Result result = match_common_number(str, options);
-    if (result.radix_point && result.fractional == 0) {
-        // The dot in e.g. "0..9" or "1.max(2)" is not part of the number.
+    if (result.radix_point) {
+        // The dot in e.g. "0..9" or "1.max(2)" is not part of the number,
+        // and a fraction cannot start with a digit separator.
         const std::size_t length = result.prefix + result.integer;
         const std::u8string_view after_dot = str.substr(length + 1);
         if (after_dot.starts_with(u8'.') || match_identifier(after_dot)) {
-- 
2.43.0


From a768f6646707c43966ce3a56fa535555aed85ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 046/173] fix: kotlin: block comments nest

---
 include/ulight/impl/lang/rust.hpp | 9 +++++++++
 src/main/cpp/lang/kotlin.cpp      | 4 +++-
 src/main/cpp/lang/rust.cpp        | 6 ++----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/lang/rust.hpp b/include/ulight/impl/lang/rust.hpp
index 90fd03a..4302549 100644
--- a/include/ulight/impl/lang/rust.hpp
+++ b/include/ulight/impl/lang/rust.hpp
@@ -8,6 +8,8 @@
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/platform.h"
 
+#include "ulight/impl/lang/js.hpp"
+
 namespace ulight::rust {
 
 inline constexpr struct Is_Rust_Whitespace {
@@ -216,6 +218,13 @@ Escape_Result match_escape_sequence(std::u8string_view str, String_Type type);
 [[nodiscard]]
 Common_Number_Result match_number(std::u8string_view str);
 
+using js::Comment_Result;
+
+/// @brief Matches a block comment at the start of `str`.
+/// Unlike in many other languages, block comments can be nested.
+[[nodiscard]]
+Comment_Result match_block_comment(std::u8string_view str);
+
 [[nodiscard]]
 std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept;
 
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index cb7e43e..ad2bff3 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -9,6 +9,7 @@
 #include "ulight/impl/lang/js.hpp"
 #include "ulight/impl/lang/kotlin.hpp"
 #include "ulight/impl/lang/python.hpp"
+#include "ulight/impl/lang/rust.hpp"
 
 namespace ulight {
 namespace kotlin {
@@ -162,8 +163,9 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 using cpp::match_identifier;
 
 using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
+// https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-DelimitedComment
+using rust::match_block_comment;
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
 {
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index b26ba4c..58c771b 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -264,12 +264,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
 }
 
-using js::Comment_Result;
 using js::match_line_comment;
 
-namespace {
-
-[[nodiscard]]
 Comment_Result match_block_comment(std::u8string_view str)
 {
     // https://doc.rust-lang.org/reference/comments.html
@@ -297,6 +293,8 @@ Comment_Result match_block_comment(std::u8string_view str)
     return { .length = str.length(), .is_terminated = false };
 }
 
+namespace {
+
 struct Highlighter : Highlighter_Base {
 
     Highlighter(
-- 
2.43.0


From dfa9c4f83a08bff3b6248e6aaa9968f8b0fe01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 047/173] fix: kotlin: recognize the keyword super

---
 include/ulight/impl/lang/kotlin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 6036cce..64a9bf0 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -118,7 +118,7 @@ namespace ulight::kotlin {
     F(sealed, "sealed", keyword)                                                                   \
     F(set, "set", keyword)                                                                         \
     F(setparam, "setparam", keyword)                                                               \
-    F(super, "super@", keyword_this)                                                               \
+    F(super, "super", keyword_this)                                                                \
     F(super_at, "super@", keyword_this)                                                            \
     F(suspend, "suspend", keyword)                                                                 \
     F(this_, "this", keyword_this)                                                                 \
-- 
2.43.0


From fb0845f08ac52eb206a2238f5f088dafadb0ecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 048/173] fix: kotlin: recognize =>

---
 src/main/cpp/lang/kotlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index ad2bff3..856a43c 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -132,7 +132,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     case u8'=':
         return str.starts_with(u8"===") ? eqeqeq
             : str.starts_with(u8"==")   ? eqeq
-            : str.starts_with(u8">=")   ? double_arrow
+            : str.starts_with(u8"=>")   ? double_arrow
                                         : assignment;
     case u8'>': return str.starts_with(u8">=") ? ge : rangle;
     case u8'?':
-- 
2.43.0


From 2841f5f13042814351eac413c7c6fe0fa9ea93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 049/173] fix: kotlin: do not split names that follow ! and
 start with in or is

---
 src/main/cpp/lang/kotlin.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 856a43c..8a43010 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -95,6 +95,11 @@ Common_Number_Result match_number(std::u8string_view str)
     return result;
 }
 
+// https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-Identifier
+// I don't think this is 100% correct and the same as C++.
+// However, it should be close enough.
+using cpp::match_identifier;
+
 std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 {
     constexpr std::optional<Token_Type> none;
@@ -103,12 +108,17 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     if (str.empty()) {
         return {};
     }
+    // The name in e.g. "!isEmpty()" is not to be split.
+    const auto is_word = [&](std::u8string_view code) {
+        return str.starts_with(code) && match_identifier(str.substr(1)) == code.length() - 1;
+    };
+
     switch (str[0]) {
     case u8'!':
         return str.starts_with(u8"!=") ? excl_eq
-            : str.starts_with(u8"!in") ? not_in
-            : str.starts_with(u8"!is") ? not_is
-                                       : excl;
+            : is_word(u8"!in") ? not_in
+            : is_word(u8"!is") ? not_is
+                               : excl;
     case u8'"': return str.starts_with(u8"\"\"\"") ? triple_quote_open : quote_open;
     case u8'#': return hash;
     case u8'%': return str.starts_with(u8"%=") ? mod_assignment : mod;
@@ -157,11 +167,6 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     }
 }
 
-// https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-Identifier
-// I don't think this is 100% correct and the same as C++.
-// However, it should be close enough.
-using cpp::match_identifier;
-
 using js::Comment_Result;
 using js::match_line_comment;
 // https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-DelimitedComment
-- 
2.43.0


From 806559312015a7ad3fab5e3c05e02553ffcbd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 050/173] fix: kotlin: a dollar sign on its own is part of the
 string

---
 src/main/cpp/lang/kotlin.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 8a43010..8c48d5c 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -426,8 +426,8 @@ private:
             // Character literals do not support string interpolation;
             // '$' is an ordinary character inside them.
             if (!is_character && remainder[length] == u8'$') {
-                flush();
-                if (remainder.starts_with(u8"${")) {
+                if (remainder.substr(length).starts_with(u8"${")) {
+                    flush();
                     emit_and_advance(2, Highlight_Type::string_interpolation_delim);
                     consume_brace_balanced_tokens(Context::string);
                     if (eof()) {
@@ -437,13 +437,14 @@ private:
                     emit_and_advance(1, Highlight_Type::string_interpolation_delim);
                     continue;
                 }
-                if (const std::size_t id = match_identifier(remainder.substr(1))) {
+                if (const std::size_t id = match_identifier(remainder.substr(length + 1))) {
+                    flush();
                     emit_and_advance(1 + id, Highlight_Type::string_interpolation);
                     continue;
                 }
                 // A '$' that cannot be matched as a LineStrExprStart or FieldIdentifier
-                // is an error.
-                emit_and_advance(1, Highlight_Type::error);
+                // is part of LineStrText or MultiLineStrText.
+                ++length;
                 continue;
             }
 
-- 
2.43.0


From 78ae6b09ee7aa4b6a15143454fa0f4da5b244136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 051/173] fix: kotlin: recognize !==

---
 include/ulight/impl/lang/kotlin.hpp | 1 +
 src/main/cpp/lang/kotlin.cpp        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 64a9bf0..2762754 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -14,6 +14,7 @@ namespace ulight::kotlin {
 #define ULIGHT_KOTLIN_TOKEN_ENUM_DATA(F)                                                           \
     F(excl, "!", symbol_op)                                                                        \
     F(excl_eq, "!=", symbol_op)                                                                    \
+    F(excl_eqeq, "!==", symbol_op)                                                                 \
     F(not_in, "!in", keyword)                                                                      \
     F(not_is, "!is", keyword)                                                                      \
     F(quote_open, "\"", string_delim)                                                              \
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 8c48d5c..f7c12b7 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -115,7 +115,8 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 
     switch (str[0]) {
     case u8'!':
-        return str.starts_with(u8"!=") ? excl_eq
+        return str.starts_with(u8"!==") ? excl_eqeq
+            : str.starts_with(u8"!=")  ? excl_eq
             : is_word(u8"!in") ? not_in
             : is_word(u8"!is") ? not_is
                                : excl;
-- 
2.43.0


From 955ea42babb0fd1a4662f7bcc00f2edd4112ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 052/173] fix: java: identifiers may contain dollar signs

---
 src/main/cpp/lang/java.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 45728ad..3cd1d2a 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -155,8 +155,27 @@ std::optional<Token_Type> match_symbol(const std::u8string_view str) noexcept
     }
 }
 
-// https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.8
-using cpp::match_identifier;
+std::size_t match_identifier(const std::u8string_view str)
+{
+    // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.8
+    // Other than the dollar sign, this is close enough to C++.
+    std::size_t length = 0;
+    while (length < str.length()) {
+        if (str[length] == u8'$') {
+            ++length;
+        }
+        else if (const std::size_t part = cpp::match_identifier(str.substr(length))) {
+            length += part;
+        }
+        else if (length != 0 && is_ascii_digit(str[length])) {
+            ++length;
+        }
+        else {
+            break;
+        }
+    }
+    return length;
+}
 
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.7
 using js::Comment_Result;
-- 
2.43.0


From eca84ba7f385810ec12f3c64270c1af362ea04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 053/173] fix: a number does not start with a digit separator

---
 src/main/cpp/parse_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 88bea7d..2a08a69 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -201,6 +201,12 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         return str.substr(length).starts_with(u8'0') ? options.default_leading_zero_base
                                                      : options.default_base;
     }();
+    if (result.prefix == 0 && options.digit_separator
+        && str.substr(length).starts_with(options.digit_separator)) {
+        // A number such as "_1" would be an identifier in many languages,
+        // and there should be no language that considers it to be a number.
+        return {};
+    }
     {
         const auto [integer_digits, integer_error]
             = match_separated_digits(str.substr(length), base, options.digit_separator);
-- 
2.43.0


From fcf01774b4e632bfe0b33e64397f4c88b8ad39e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 054/173] fix: kotlin: keep the dot of a member access to a
 name with a leading underscore out of numbers

---
 src/main/cpp/lang/kotlin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index f7c12b7..dc6da02 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -83,8 +83,9 @@ Common_Number_Result match_number(std::u8string_view str)
         .digit_separator = digit_separator,
     };
     Common_Number_Result result = match_common_number(str, options);
-    if (result.radix_point && result.fractional == 0) {
-        // The dot in e.g. "0..9" or "1.toDouble()" is not part of the number.
+    if (result.radix_point) {
+        // The dot in e.g. "0..9" or "1.toDouble()" is not part of the number,
+        // and a fraction cannot start with a digit separator.
         const std::size_t length = result.prefix + result.integer;
         const std::u8string_view after_dot = str.substr(length + 1);
         if (after_dot.starts_with(u8'.') || cpp::match_identifier(after_dot)) {
-- 
2.43.0


From 29512557726c37d958258fd96ae546362fab6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 055/173] fix: python: accept the string prefixes u and Rf

---
 src/main/cpp/lang/python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index f6d6a88..3b1c2e6 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -96,6 +96,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"RB", raw_byte },
         { u8"RF", raw_formatted },
         { u8"Rb", raw_byte },
+        { u8"Rf", raw_formatted },
         { u8"U", unicode },
         { u8"b", byte },
         { u8"bR", raw_byte },
@@ -108,6 +109,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"rF", raw_formatted },
         { u8"rb", raw_byte },
         { u8"rf", raw_formatted },
+        { u8"u", unicode },
     };
     static_assert(std::ranges::is_sorted(prefixes, {}, &Prefix_And_Type::id));
 
-- 
2.43.0


From c8898c67ac54d172018b0ca5e31972119def8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 056/173] fix: python: do not treat keywords as string prefixes

---
 src/main/cpp/lang/python.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 3b1c2e6..71cda02 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -351,6 +351,10 @@ private:
             prefix_erroneous = true;
             return String_Prefix::unicode;
         }();
+        if (prefix_erroneous && token_type_by_code(remainder.substr(0, prefix_length))) {
+            // A keyword can be directly followed by a string, like in "return''".
+            return false;
+        }
 
         if (const auto after_prefix = remainder.substr(prefix_length);
             !after_prefix.starts_with(u8'\'') && !after_prefix.starts_with(u8'"')) {
-- 
2.43.0


From 6750587f4e56877e33521a755caebfca42a63372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 057/173] fix: python: accept a digit separator after the
 prefix of a number

---
 include/ulight/impl/numbers.hpp |  3 +++
 src/main/cpp/lang/python.cpp    |  1 +
 src/main/cpp/parse_utils.cpp    | 10 +++++++---
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/numbers.hpp b/include/ulight/impl/numbers.hpp
index 7cf950a..5abe56e 100644
--- a/include/ulight/impl/numbers.hpp
+++ b/include/ulight/impl/numbers.hpp
@@ -99,6 +99,9 @@ struct Common_Number_Options {
     /// @brief If `true`, digit separators may also be leading, trailing, or consecutive,
     /// like in Rust, where `1__0` and `0x_1_u8` are valid.
     bool separators_anywhere = false;
+    /// @brief If `true`, there may be a single digit separator after the prefix,
+    /// like in Python, where `0x_ff` is valid.
+    bool separator_after_prefix = false;
     /// @brief If `true`, the integer part shall not be empty, even if there is a fraction,
     /// like `.5f`.
     bool nonempty_integer = false;
diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 71cda02..42f1ab4 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -140,6 +140,7 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .separator_after_prefix = true,
     };
     return match_common_number(str, options);
 }
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 2a08a69..3cd0b4e 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -208,9 +208,13 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         return {};
     }
     {
-        const auto [integer_digits, integer_error]
-            = match_separated_digits(str.substr(length), base, options.digit_separator);
-        result.integer = integer_digits;
+        const std::size_t leading_separator = options.separator_after_prefix && result.prefix
+            && options.digit_separator && str.substr(length).starts_with(options.digit_separator);
+        const auto [integer_digits, integer_error] = match_separated_digits(
+            str.substr(length + leading_separator), base, options.digit_separator
+        );
+        result.integer = leading_separator + integer_digits;
+        result.erroneous |= leading_separator && integer_digits == 0;
         result.erroneous |= options.nonempty_integer && integer_digits == 0;
         result.erroneous |= integer_error && !options.separators_anywhere;
         length += result.integer;
-- 
2.43.0


From 2cdf9e0cd3e3d8be271e1b8ed4fdfcb3512d9c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 058/173] fix: lua: do not end strings at line breaks that are
 escaped or follow \\z

---
 src/main/cpp/lang/lua.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 91d48c4..3ce3516 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -210,6 +210,14 @@ String_Literal_Result match_string_literal(std::u8string_view str)
 
             if (escaped) {
                 escaped = false;
+                if (c == u8'z') {
+                    // \z skips the following whitespace, including line breaks.
+                    length += match_whitespace(str.substr(length + 1));
+                }
+                else if (str.substr(length).starts_with(u8"\r\n")) {
+                    // An escaped line break may consist of two characters.
+                    ++length;
+                }
             }
             else if (c == u8'\\') {
                 escaped = true;
-- 
2.43.0


From 339c22f2d2d1c2628d3164b0df5d45006255efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 059/173] fix: bash: highlight positional parameters

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index a53e3ef..3773bed 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -36,7 +36,7 @@ inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"'$`\"\\
 /// because `$#` expands to the number of positional parameters.
 ///
 // https://www.gnu.org/software/bash/manual/bash.html#Special-Parameters
-inline constexpr auto is_bash_special_parameter = Charset256(u8"*@#?-$!0");
+inline constexpr auto is_bash_special_parameter = Charset256(u8"*@#?-$!0123456789");
 
 // https://www.gnu.org/software/bash/manual/bash.html#index-name
 inline constexpr auto is_bash_identifier_start = is_ascii_alpha | u8'_';
-- 
2.43.0


From ec929d26d768b207996c1ff2e1ca41db0b7f850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 060/173] fix: bash: a backslash does not escape single quotes
 within double quotes

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index 3773bed..1dcaa70 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -27,7 +27,7 @@ inline constexpr auto is_bash_metacharacter = is_bash_blank | Charset256(u8"|&;(
 /// For example, `\x` has no special meaning within double quotes (outside it does).
 ///
 /// https://www.gnu.org/software/bash/manual/bash.html#Double-Quotes
-inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"'$`\"\\\n");
+inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"$`\"\\\n");
 
 /// @brief Returns `true` iff `c` forms a parameter substitution
 /// when preceded by `$` despite not being a variable name.
-- 
2.43.0


From 2f2ba9514c3a61e0c85e5170dbddce83425b29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 061/173] fix: bash: a command follows control operators

---
 src/main/cpp/lang/bash.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index ffbcce5..9355a00 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -258,7 +258,18 @@ private:
             case u8'>': {
                 const std::optional<Token_Type> op = match_operator(remainder);
                 ULIGHT_ASSERT(op);
+                const bool is_redirection
+                    = token_type_code(*op).find_first_of(u8"<>") != std::u8string_view::npos;
                 emit_and_advance(token_type_length(*op), Highlight_Type::symbol_op);
+                if (state != State::parameter_sub) {
+                    if (*op == Token_Type::semicolon || *op == Token_Type::amp_amp
+                        || *op == Token_Type::pipe || *op == Token_Type::pipe_pipe) {
+                        state = State::before_command;
+                    }
+                    else if (is_redirection && state != State::before_command) {
+                        state = State::before_argument;
+                    }
+                }
                 continue;
             }
             case u8'}': {
-- 
2.43.0


From 7933373f0a03c84b63f4cb564d77dcfb2dd0a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 062/173] fix: bash: continue the surrounding word after quotes
 and substitutions

---
 src/main/cpp/lang/bash.cpp | 55 +++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 9355a00..a3a6fb1 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <string_view>
+#include <utility>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/escapes.hpp"
@@ -179,20 +180,30 @@ private:
         while (!remainder.empty()) {
             switch (remainder[0]) {
             case u8'\\': {
+                if (!remainder.starts_with(u8"\\\n")) {
+                    start_word();
+                }
                 consume_escape_character();
                 continue;
             }
             case u8'\'': {
+                start_word();
                 const String_Result string = match_single_quoted_string(remainder);
                 highlight_string(string);
                 continue;
             }
             case u8'"': {
+                start_word();
                 emit_and_advance(1, Highlight_Type::string_delim);
                 consume_double_quoted_string();
                 continue;
             }
             case u8'#': {
+                if (state != State::before_command && state != State::before_argument) {
+                    // A comment can only start where a word could start.
+                    consume_word(context);
+                    continue;
+                }
                 const std::size_t length = match_comment(remainder);
                 emit_and_advance(1, Highlight_Type::comment_delim);
                 if (length > 1) {
@@ -213,11 +224,14 @@ private:
             case u8'\r':
             case u8'\n': {
                 advance(1);
-                state = State::before_command;
+                if (state != State::parameter_sub) {
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'$': {
                 if (starts_with_substitution(remainder)) {
+                    start_word();
                     consume_substitution();
                 }
                 else {
@@ -227,8 +241,13 @@ private:
             }
             case u8'(': {
                 emit_and_advance(1, Highlight_Type::symbol_parens);
-                state = State::before_command;
+                if (context == Context::parameter_sub) {
+                    continue;
+                }
+                start_word();
+                const State outer_state = std::exchange(state, State::before_command);
                 consume_commands(Context::subshell);
+                state = outer_state;
                 continue;
             }
             case u8')': {
@@ -288,6 +307,18 @@ private:
         }
     }
 
+    /// @brief Updates the state for the start (or continuation) of a word
+    /// that does not start with unquoted characters.
+    void start_word()
+    {
+        if (state == State::before_command) {
+            state = State::in_command;
+        }
+        else if (state == State::before_argument) {
+            state = State::in_argument;
+        }
+    }
+
     void consume_word(Context context)
     {
         std::size_t length = 0;
@@ -389,40 +420,32 @@ private:
         const char8_t next = remainder[1];
         if (next == u8'{') {
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            state = State::parameter_sub;
+            const State outer_state = std::exchange(state, State::parameter_sub);
             consume_commands(Context::parameter_sub);
+            state = outer_state;
             return;
         }
         if (next == u8'(') {
             if (remainder.size() >= 3 && remainder[2] == u8'(') {
                 emit_and_advance(3, Highlight_Type::string_interpolation_delim);
-                state = State::before_command;
+                const State outer_state = std::exchange(state, State::before_command);
                 consume_commands(Context::arith_sub);
+                state = outer_state;
                 return;
             }
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            state = State::before_command;
+            const State outer_state = std::exchange(state, State::before_command);
             consume_commands(Context::command_sub);
+            state = outer_state;
             return;
         }
 
-        const auto update_state = [&] {
-            if (state == State::before_command) {
-                state = State::in_command;
-            }
-            else if (state == State::before_argument) {
-                state = State::in_argument;
-            };
-        };
-
         if (is_bash_special_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
-            update_state();
             return;
         }
         if (const std::size_t id = match_identifier(remainder.substr(1))) {
             emit_and_advance(id + 1, Highlight_Type::string_interpolation);
-            update_state();
             return;
         }
         ULIGHT_ASSERT_UNREACHABLE(u8"No substitution to consume.");
-- 
2.43.0


From f9e52c1133533a43781e019ed649df6e81093d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 063/173] fix: nasm: identifiers may contain number signs and
 tildes, but no minus signs

---
 include/ulight/impl/lang/nasm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/nasm.hpp b/include/ulight/impl/lang/nasm.hpp
index 4c0a95a..78a9eeb 100644
--- a/include/ulight/impl/lang/nasm.hpp
+++ b/include/ulight/impl/lang/nasm.hpp
@@ -12,7 +12,7 @@ namespace ulight::nasm {
 inline constexpr auto is_nasm_identifier_start = is_ascii_alpha | Charset256(u8"._?$");
 
 // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html
-inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$@-.?");
+inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$#@~.?");
 
 [[nodiscard]]
 bool is_pseudo_instruction(std::u8string_view name) noexcept;
-- 
2.43.0


From eb6f8544d1b4bac1b5b7abc218bd937167d3bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 064/173] fix: nasm: do not treat identifiers as hexadecimal
 numbers

---
 src/main/cpp/lang/nasm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 5560cbe..af8884a 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -431,7 +431,10 @@ private:
                 emit_and_advance(op_length, Highlight_Type::symbol_op);
                 break;
             }
-            if (expect_number()) {
+            // Numbers start with a digit, or with a digit following a dollar sign.
+            // Otherwise, identifiers like "each" would be hexadecimal numbers with suffix.
+            if (c == u8'$' && remainder.length() > 1 && is_ascii_digit(remainder[1])
+                && expect_number()) {
                 break;
             }
             if (is_nasm_identifier_start(c)) {
-- 
2.43.0


From 886184b4b44cc6b671897ca2140e6e1cd625e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 065/173] fix: nasm: labels are only declared where
 instructions can appear

---
 src/main/cpp/lang/nasm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index af8884a..d24f2f6 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -480,7 +480,8 @@ private:
             emit_and_advance(length, Highlight_Type::keyword_op);
             return;
         }
-        if (length < remainder.length() && remainder[length] == u8':') {
+        if (id_highlight == Highlight_Type::name_instruction //
+            && length < remainder.length() && remainder[length] == u8':') {
             emit_and_advance(length + 1, Highlight_Type::name_label_decl);
             id_highlight = Highlight_Type::name_instruction;
             return;
-- 
2.43.0


From 145fd72c3e50a23bba2bb68914f285873d7e42d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 066/173] fix: nasm: recognize the missing conditional jumps

---
 src/main/cpp/lang/nasm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index d24f2f6..0eb384c 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -265,10 +265,11 @@ static_assert(std::ranges::is_sorted(registers));
 constexpr std::u8string_view label_instructions[] {
     u8"call",
 
-    u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"je",   u8"jg",  u8"jge",
-    u8"jl",   u8"jle",   u8"jmp",    u8"jna",    u8"jna",   u8"jnae", u8"jnb", u8"jnbe",
-    u8"jnc",  u8"jne",   u8"jng",    u8"jnge",   u8"jnl",   u8"jnle", u8"jno", u8"jnp",
-    u8"jnz",  u8"jo",    u8"jp",     u8"jpe",    u8"jpo",   u8"js",   u8"jz",
+    u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"jcxz", u8"je",  u8"jecxz",
+    u8"jg",   u8"jge",   u8"jl",     u8"jle",    u8"jmp",   u8"jna",  u8"jnae", u8"jnb",
+    u8"jnbe", u8"jnc",   u8"jne",    u8"jng",    u8"jnge",  u8"jnl",  u8"jnle", u8"jno",
+    u8"jnp",  u8"jns",   u8"jnz",    u8"jo",     u8"jp",    u8"jpe",  u8"jpo",  u8"jrcxz",
+    u8"js",   u8"jz",
 
     u8"loop", u8"loope", u8"loopne", u8"loopnz", u8"loopz",
 };
-- 
2.43.0


From b42711d91c5add8394640d3528853b401ac82251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 067/173] fix: nasm: recognize the operators *, =, == and <>

---
 src/main/cpp/lang/nasm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 0eb384c..27f1856 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -71,7 +71,9 @@ std::size_t match_operator(std::u8string_view str)
     case u8':':
     case u8'+':
     case u8'-':
+    case u8'*':
     case u8'~': return 1;
+    case u8'=': return str.starts_with(u8"==") ? 2 : 1;
     case u8'!': return str.starts_with(u8"!=") ? 2 : 1;
     case u8'|': return str.starts_with(u8"||") ? 2 : 1;
     case u8'&': return str.starts_with(u8"&&") ? 2 : 1;
@@ -86,6 +88,7 @@ std::size_t match_operator(std::u8string_view str)
             : str.starts_with(u8"<=>")  ? 3
             : str.starts_with(u8"<<")   ? 2
             : str.starts_with(u8"<=")   ? 2
+            : str.starts_with(u8"<>")   ? 2
                                         : 1;
     case u8'/': return str.starts_with(u8"//") ? 2 : 1;
     case u8'%': return str.starts_with(u8"%%") ? 2 : 1;
-- 
2.43.0


From 5fced4233f1b0f7617da6949a2d61f357cc35880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 068/173] fix: accept digit separators in numbers with base
 suffix

---
 src/main/cpp/parse_utils.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 3cd0b4e..1cbb9b4 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -298,7 +298,7 @@ Suffix_Number_Result match_suffix_number(
     ULIGHT_ASSERT(determine_suffix);
 
     const std::size_t length = ascii::length_if(str, [s = digit_separator](char8_t c) {
-        return s == 0 || c == s || is_ascii_alphanumeric(c);
+        return (s != 0 && c == s) || is_ascii_alphanumeric(c);
     });
 
     if (length <= 1) {
@@ -315,18 +315,19 @@ Suffix_Number_Result match_suffix_number(
         for (std::size_t i = 0; i + suffix.length < length; ++i) {
             const char8_t c = number[i];
 
+            if (digit_separator != 0 && c == digit_separator) {
+                if (i != 0 && number[i - 1] == digit_separator) {
+                    return true;
+                }
+                continue;
+            }
+
             const int digit_value = c >= u8'A' && c <= u8'Z' ? c - u8'A' + 10
                 : c >= u8'a' && c <= u8'z'                   ? c - u8'a' + 10
                                                              : c - u8'0';
             if (digit_value >= suffix.base) {
                 return true;
             }
-            const bool repeated_separator = digit_separator != 0 && c == digit_separator //
-                && i != 0 //
-                && number[i - 1] == digit_separator;
-            if (repeated_separator) {
-                return true;
-            }
         }
         return false;
     }();
-- 
2.43.0


From 186334ecb08edcfcf244441cd93ec450fbe4a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 069/173] fix: nasm: digits of prefixed hexadecimal numbers are
 no base suffixes

---
 src/main/cpp/lang/nasm.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 27f1856..e400ea1 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -532,6 +532,15 @@ private:
         if (remainder.starts_with(digit_separator)) {
             return false;
         }
+        // Digits following a hexadecimal prefix may look like a suffix, like in "0x1b".
+        const bool has_hex_prefix = remainder.length() > 2 //
+            && remainder[0] == u8'0' //
+            && base_of_suffix_char(remainder[1]) == 16 //
+            && is_ascii_hex_digit(remainder[2]);
+        const bool has_dollar_prefix = remainder.starts_with(u8'$');
+        if ((has_hex_prefix || has_dollar_prefix) && expect_common_number()) {
+            return true;
+        }
         return expect_suffixed_number() || expect_common_number();
     }
 
-- 
2.43.0


From d4b86633e2c6f548f21c04ead088d32e281e101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 070/173] fix: cpp: preprocessing directives end with their
 line

---
 src/main/cpp/lang/cpp.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index b34e2d8..82fcdc5 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -99,6 +99,15 @@ std::size_t match_non_whitespace(std::u8string_view str)
 
 namespace {
 
+/// @brief Matches whitespace within a line.
+[[nodiscard]]
+std::size_t match_blank(std::u8string_view str)
+{
+    return ascii::length_if(str, [](char8_t c) {
+        return is_cpp_whitespace(c) && c != u8'\n' && c != u8'\r';
+    });
+}
+
 [[nodiscard]]
 constexpr bool is_string_literal_prefix(std::u8string_view str)
 {
@@ -1038,9 +1047,10 @@ public:
         const std::size_t op_length = cpp_token_type_length(*op);
         emit_and_advance(op_length, Highlight_Type::name_macro_delim);
 
+        fresh_line = false;
+
         // Consume whitespace between `#` and the directive name.
-        const std::size_t white = match_whitespace(remainder());
-        advance(white);
+        advance(match_blank(remainder()));
 
         const std::size_t id_length = match_identifier(remainder());
         if (id_length == 0) {
@@ -1051,8 +1061,7 @@ public:
 
         // For #include, highlight a `<...>` header name as a string.
         if (directive_name == u8"include") {
-            const std::size_t w2 = match_whitespace(remainder());
-            advance(w2);
+            advance(match_blank(remainder()));
             if (remainder().starts_with(u8'<')) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 const std::u8string_view rem = remainder();
-- 
2.43.0


From 7726b9258f03eb54047a4e568cb3ddcd19e96a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 071/173] fix: cpp: do not treat keywords as literal prefixes

---
 src/main/cpp/lang/cpp.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 82fcdc5..a5f4837 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -650,6 +650,13 @@ private:
         index += length;
     }
 
+    [[nodiscard]]
+    bool is_keyword(std::u8string_view id) const
+    {
+        const std::optional<Token_Type> type = cpp_token_type_by_code(id);
+        return type && feature_in_mask(*type, feature_source_mask);
+    }
+
     [[nodiscard]]
     std::u8string_view remainder() const
     {
@@ -729,6 +736,10 @@ public:
 
         if (prefix_length != 0) {
             const auto prefix = remainder().substr(0, prefix_length);
+            if (is_keyword(prefix)) {
+                // A keyword can be directly followed by a literal, like in "case'x'".
+                return false;
+            }
             const auto prefix_highlight
                 = prefix == u8"u8" || prefix == u8"u" || prefix == u8"U" || prefix == u8"L"
                 ? Highlight_Type::string_decor
@@ -756,9 +767,12 @@ public:
         bool is_raw = false;
         if (prefix_length != 0) {
             const auto prefix = remainder().substr(0, prefix_length);
-            const auto prefix_highlight = //
-                prefix == u8"operator"             ? Highlight_Type::keyword
-                : is_string_literal_prefix(prefix) ? Highlight_Type::string_decor
+            if (is_keyword(prefix)) {
+                // A keyword can be directly followed by a literal, like in "return\"x\"".
+                return false;
+            }
+            const auto prefix_highlight //
+                = is_string_literal_prefix(prefix) ? Highlight_Type::string_decor
                                                    : Highlight_Type::error;
             emit_and_advance(prefix_length, prefix_highlight);
             is_raw = prefix.ends_with(u8'R');
-- 
2.43.0


From 38bc82a462c829e24e52a9492b6d461075fff40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 072/173] fix: cpp: do not skip the tokens that follow a stray
 character

---
 src/main/cpp/lang/cpp.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index a5f4837..af43889 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -1104,15 +1104,17 @@ public:
 
     bool expect_non_whitespace()
     {
-        if (const std::size_t non_white_length = match_non_whitespace(remainder())) {
-            // Don't emit any highlighting.
-            // To my understanding, this currently only matches backslashes at the end of the
-            // line. We don't have a separate phase for these, so whatever, this seems fine.
-            fresh_line = false;
-            advance(non_white_length);
-            return true;
+        if (index >= source.size()) {
+            return false;
         }
-        return false;
+        // Don't emit any highlighting.
+        // This matches backslashes at the end of the line
+        // (we don't have a separate phase for these, so whatever, this seems fine),
+        // and any characters that cannot be part of a token.
+        // What directly follows such a character is highlighted normally.
+        fresh_line = false;
+        advance(std::size_t(utf8::decode_and_length_or_replacement(remainder()).length));
+        return true;
     }
 };
 
-- 
2.43.0


From 7dea3a1576af444d3cd26cd77b78d95eae8a4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 073/173] fix: cpp: %> is a brace, not a square bracket

---
 src/main/cpp/lang/cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index af43889..504bbf6 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -490,7 +490,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
         return str.starts_with(u8"%:%:") ? pound_pound_alt
             : str.starts_with(u8"%:")    ? pound_alt
             : str.starts_with(u8"%=")    ? percent_eq
-            : str.starts_with(u8"%>")    ? right_square_alt
+            : str.starts_with(u8"%>")    ? right_brace_alt
                                          : percent;
     case u8'{': return left_brace;
     case u8'}': return right_brace;
-- 
2.43.0


From fe0a061724f253ccf57c68cd7a4afd77b630cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 074/173] fix: cpp: the exponent of hexadecimal floating-point
 numbers is decimal

---
 src/main/cpp/lang/cpp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 504bbf6..0e41a82 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -922,7 +922,7 @@ public:
     {
         ULIGHT_ASSERT(!pp_number.empty());
 
-        const bool is_hex = pp_number.starts_with(u8"0x") || pp_number.starts_with(u8"0X");
+        bool is_hex = pp_number.starts_with(u8"0x") || pp_number.starts_with(u8"0X");
         const bool is_binary = pp_number.starts_with(u8"0b") || pp_number.starts_with(u8"0B");
 
         if (is_hex || is_binary) {
@@ -976,6 +976,8 @@ public:
                 if (is_exponent) {
                     emit_and_advance(1, Highlight_Type::number_delim);
                     pp_number.remove_prefix(1);
+                    // The exponent is decimal, so that "f" is a suffix in "0x1p0f".
+                    is_hex = false;
                     break;
                 }
                 emit_and_advance(pp_number.length(), Highlight_Type::number_decor);
-- 
2.43.0


From 0d2cb55dd5184d6ffc1d2ce97875fda88ebfa9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 075/173] fix: js: comments do not affect whether a regular
 expression can follow

---
 src/main/cpp/lang/js.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 95b3fc2..9e94286 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1198,8 +1198,22 @@ private:
     bool expect_whitespace()
     {
         const std::size_t white_length = match_whitespace(remainder);
+        if (white_length == 0) {
+            return false;
+        }
         advance(white_length);
-        return white_length != 0;
+        exclude_hashbang();
+        return true;
+    }
+
+    /// @brief Shall be called for anything that does not affect
+    /// whether a regular expression can follow, i.e. whitespace and comments.
+    /// A hashbang can only appear at the very start.
+    void exclude_hashbang()
+    {
+        if (input_element == Input_Element::hashbang_or_regex) {
+            input_element = Input_Element::regex;
+        }
     }
 
     bool expect_hashbang_comment()
@@ -1218,6 +1232,7 @@ private:
         if (hashbang_length > 2) {
             emit_and_advance(hashbang_length - 2, Highlight_Type::comment);
         }
+        exclude_hashbang();
         return true;
     }
 
@@ -1237,7 +1252,7 @@ private:
         if (length > 2) {
             emit_and_advance(length - 2, Highlight_Type::comment);
         }
-        input_element = Input_Element::regex;
+        exclude_hashbang();
     }
 
     bool expect_block_comment()
@@ -1263,7 +1278,7 @@ private:
             emit(index + block_comment.length - 2, 2, Highlight_Type::comment_delim); // */
         }
         advance(block_comment.length);
-        input_element = Input_Element::regex;
+        exclude_hashbang();
     }
 
     bool expect_string_literal()
-- 
2.43.0


From b409aaf19ef9368b5d71790c90657ffce6d3a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 076/173] fix: js: a slash in a character class does not end
 the regular expression

---
 src/main/cpp/lang/js.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 9e94286..1961aeb 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1448,6 +1448,7 @@ private:
         rem.remove_prefix(1);
 
         auto escaped = false;
+        auto in_class = false;
 
         for (std::size_t size = 0; size < rem.length(); ++size) {
             const char8_t c = rem[size];
@@ -1458,7 +1459,13 @@ private:
             else if (c == u8'\\') {
                 escaped = true;
             }
-            else if (c == u8'/') {
+            else if (c == u8'[') {
+                in_class = true;
+            }
+            else if (c == u8']') {
+                in_class = false;
+            }
+            else if (c == u8'/' && !in_class) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 emit_and_advance(size, Highlight_Type::string);
                 emit_and_advance(1, Highlight_Type::string_delim);
-- 
2.43.0


From 9828aea1ef73cc903afa5dd4fd0b41eb8b63b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 077/173] fix: js: regular expressions can follow else, do,
 default and extends

---
 src/main/cpp/lang/js.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 1961aeb..3870e35 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -120,6 +120,10 @@ constexpr bool token_type_is_expr_keyword(Token_Type type)
     case kw_return:
     case kw_throw:
     case kw_case:
+    case kw_default:
+    case kw_do:
+    case kw_else:
+    case kw_extends:
     case kw_delete:
     case kw_void:
     case kw_typeof:
-- 
2.43.0


From 5f2fd4f447b636a426f44d3226475f0a98fbadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 078/173] fix: js: treat carriage returns as line terminators
 in string literals

---
 src/main/cpp/lang/js.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 3870e35..1eaaeb3 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -175,6 +175,7 @@ std::size_t match_line_terminator_sequence(std::u8string_view s)
 
     return s.starts_with(u8'\n') ? 1
         : s.starts_with(crlf)    ? crlf.length()
+        : s.starts_with(u8'\r')  ? 1
         : s.starts_with(ls)      ? ls.length()
         : s.starts_with(ps)      ? ps.length()
                                  : 0;
@@ -290,6 +291,10 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
         return { .length = length };
     }
     default: {
+        // https://262.ecma-international.org/15.0/index.html#prod-LineContinuation
+        if (str.starts_with(u8"\\\r\n")) {
+            return { .length = 3 };
+        }
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
         return { .length = match_single_character_escape(str) };
     }
@@ -312,6 +317,9 @@ String_Literal_Result match_string_literal(std::u8string_view str)
 
         if (escaped) {
             escaped = false;
+            if (str.substr(length).starts_with(u8"\r\n")) {
+                ++length;
+            }
         }
         else if (c == u8'\\') {
             escaped = true;
@@ -319,7 +327,7 @@ String_Literal_Result match_string_literal(std::u8string_view str)
         else if (c == quote) {
             return String_Literal_Result { .length = length + 1, .terminated = true };
         }
-        else if (c == u8'\n') {
+        else if (c == u8'\n' || c == u8'\r') {
             return String_Literal_Result { .length = length, .terminated = false };
         }
 
-- 
2.43.0


From 960ac72e93a4594ed7184231faea280536fb730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 079/173] fix: js: do not treat Khmer, Mongolian and other
 letters as whitespace

---
 include/ulight/impl/lang/js.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index d6be250..79b6b21 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -40,7 +40,7 @@ inline constexpr struct Is_JS_Whitespace {
                 || c == U'\N{NARROW NO-BREAK SPACE}'
                 || c == U'\N{MEDIUM MATHEMATICAL SPACE}'
                 || c == U'\N{IDEOGRAPHIC SPACE}'
-                || (c >= U'\u1680' && c <= U'\u180E')
+                || c == U'\N{OGHAM SPACE MARK}'
                 || (c >= U'\u2000' && c <= U'\u200A');
         // clang-format on
     }
-- 
2.43.0


From 5ce1124a6947f7714cb2495321de279fb82f476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 080/173] fix: js: accept all Unicode letters in identifiers

---
 include/ulight/impl/lang/js.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index 79b6b21..5aaf462 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -10,6 +10,7 @@
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/escapes.hpp"
 #include "ulight/impl/numbers.hpp"
+#include "ulight/impl/unicode_chars.hpp"
 
 namespace ulight::js {
 
@@ -59,6 +60,7 @@ inline constexpr struct Is_JS_Identifier_Start {
             return c == U'$'
                 || c == U'_' // Special JS characters.
                 || is_ascii_alpha(c)
+                || is_xid_start(c)
                 || (c >= U'\u00C0' && c <= U'\u00D6') // Lu, Ll, Lt, Lm, Lo, Nl categories.
                 || (c >= U'\u00D8' && c <= U'\u00F6')
                 || (c >= U'\u00F8' && c <= U'\u02FF')
@@ -87,6 +89,7 @@ inline constexpr struct Is_JS_Identifier_Part {
         // clang-format off
             return is_js_identifier_start(c)
                 || is_ascii_digit(c)
+                || is_xid_continue(c)
                 || (c >= U'\u0300' && c <= U'\u036F') // // Mn, Mc, Nd, Pc categories.
                 || (c >= U'\u1DC0' && c <= U'\u1DFF')
                 || (c >= U'\u20D0' && c <= U'\u20FF')
-- 
2.43.0


From d0eb0288366a369b3476e786234179bdcb2855ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 081/173] fix: css: recognize url(), and do not highlight
 unquoted URLs as CSS

---
 src/main/cpp/lang/css.cpp | 40 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 7ba277b..919b5a5 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -127,7 +127,7 @@ Ident_Result match_ident_like_token(std::u8string_view str)
     // parenthesis or the following URL, just the identifier.
 
     const std::size_t length = match_ident_sequence(str);
-    const std::u8string_view result = str.substr(length);
+    const std::u8string_view result = str.substr(0, length);
 
     if (length == str.length() || str[length] != u8'(') {
         return { .length = length, .type = Ident_Type::ident };
@@ -511,6 +511,44 @@ public:
             }
         }
         flush();
+
+        if (result.type == Ident_Type::url) {
+            consume_url_argument();
+        }
+    }
+
+    /// @brief Consumes the opening parenthesis that follows `url`,
+    /// and if the URL is not quoted, also the URL.
+    void consume_url_argument()
+    {
+        // https://www.w3.org/TR/css-syntax-3/#consume-url-token
+        emit_and_advance(1, Highlight_Type::symbol_parens);
+        consume_whitespace();
+        if (remainder.starts_with(u8'"') || remainder.starts_with(u8'\'')) {
+            return;
+        }
+        std::size_t length = 0;
+        const auto flush = [&] {
+            if (length != 0) {
+                emit_and_advance(length, Highlight_Type::string);
+                length = 0;
+            }
+        };
+        while (length < remainder.length() && remainder[length] != u8')') {
+            if (starts_with_valid_escape(remainder.substr(length))) {
+                flush();
+                const std::size_t escape_length = match_escaped_code_point(remainder.substr(1)) + 1;
+                emit_and_advance(escape_length, Highlight_Type::string_escape);
+            }
+            else if (is_css_whitespace(remainder[length])) {
+                flush();
+                consume_whitespace();
+            }
+            else {
+                ++length;
+            }
+        }
+        flush();
     }
 };
 
-- 
2.43.0


From 57db039d7ff38a6ee8e4071b377edfb9fa95de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 082/173] fix: css: highlight names with leading hyphens like
 other names

---
 src/main/cpp/lang/css.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 919b5a5..30b6b94 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -41,7 +41,7 @@ bool starts_with_ident_sequence(std::u8string_view str)
         return false;
     }
     if (str[0] == u8'-') {
-        return (str.length() > 1 && is_css_identifier_start(str[1]))
+        return (str.length() > 1 && (str[1] == u8'-' || is_css_identifier_start(str[1])))
             || starts_with_valid_escape(str.substr(1));
     }
     return is_css_identifier_start(str[0]) || starts_with_valid_escape(str);
@@ -251,8 +251,8 @@ public:
                         emit_and_advance(cdc_token.length(), Highlight_Type::comment_delim);
                         break;
                     }
-                    if (starts_with_ident_sequence(remainder.substr(1))) {
-                        consume_ident_like_token(Highlight_Type::name);
+                    if (starts_with_ident_sequence(remainder)) {
+                        consume_ident_like_token(contextual_highlight_type);
                         break;
                     }
                 }
-- 
2.43.0


From 31e70865222b3ae7a7e3f042c54d48ed965c3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 083/173] fix: css: treat non-ASCII characters as part of
 identifiers

---
 include/ulight/impl/lang/css.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/css.hpp b/include/ulight/impl/lang/css.hpp
index 854cfa6..97ffa51 100644
--- a/include/ulight/impl/lang/css.hpp
+++ b/include/ulight/impl/lang/css.hpp
@@ -25,7 +25,7 @@ inline constexpr struct Is_CSS_Identifier_Start {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-start-code-point
-        return is_css_ascii_identifier_start(c);
+        return !is_ascii(c) || is_css_ascii_identifier_start(c);
     }
 
     [[nodiscard]]
@@ -44,7 +44,7 @@ inline constexpr struct Is_CSS_Identifier {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-code-point
-        return is_css_ascii_identifier(c);
+        return !is_ascii(c) || is_css_ascii_identifier(c);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 503f9976f76f129606d4a37384b89517f01dcbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 084/173] fix: css: return to the enclosing block after nested
 blocks and at-rules

---
 src/main/cpp/lang/css.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 30b6b94..52fa429 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -294,7 +294,7 @@ public:
                     context = Context::block;
                 }
                 else if (context == Context::at_prelude) {
-                    context = Context::top_level;
+                    context = brace_level == 0 ? Context::top_level : Context::block;
                 }
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 break;
@@ -374,9 +374,7 @@ public:
                 if (brace_level != 0) {
                     --brace_level;
                 }
-                if (brace_level == 0) {
-                    context = Context::top_level;
-                }
+                context = brace_level == 0 ? Context::top_level : Context::block;
                 emit_and_advance(1, Highlight_Type::symbol_brace);
                 break;
             }
-- 
2.43.0


From 2322423819610b43fa5ebd103acd7244ccf2fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 085/173] fix: css: require !important to be a whole word

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 52fa429..b91fb21 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -338,7 +338,7 @@ public:
                 const std::size_t white_length = html::match_whitespace(remainder.substr(1));
                 if (const std::size_t name_length
                     = match_ident_sequence(remainder.substr(1 + white_length))) {
-                    if (ascii::starts_with_ignore_case(
+                    if (ascii::equals_ignore_case(
                             remainder.substr(1 + white_length, name_length), important
                         )) {
                         emit_and_advance(
-- 
2.43.0


From c8eca282cae219407457e9464afcc19c97a4fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 086/173] fix: css: the next-sibling combinator is not an error

---
 src/main/cpp/lang/css.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index b91fb21..746fe69 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -256,6 +256,11 @@ public:
                         break;
                     }
                 }
+                else if (context == Context::top_level) {
+                    // Example: "h1 + p"
+                    emit_and_advance(1, selector_highlight_type, Coalescing::forced);
+                    break;
+                }
                 emit_and_advance(
                     1,
                     context == Context::value || context == Context::at_prelude
-- 
2.43.0


From 18e3af49a400bb584a18ae048f00094baa5a9eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 087/173] fix: css: a line continuation may end in CRLF

---
 src/main/cpp/lang/css.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 746fe69..39d9eac 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -465,7 +465,9 @@ public:
             }
             if (remainder[length] == u8'\\') {
                 flush();
-                const std::size_t escape_length = match_escaped_code_point(remainder.substr(1)) + 1;
+                const std::size_t escape_length = remainder.starts_with(u8"\\\r\n")
+                    ? 3
+                    : match_escaped_code_point(remainder.substr(1)) + 1;
                 emit_and_advance(escape_length, Highlight_Type::string_escape);
                 continue;
             }
-- 
2.43.0


From 6520b808e962741c08ae84807e42af2504a99919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 088/173] fix: html: recognize hexadecimal character references
 with uppercase X

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index c8ef86e..8278971 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -31,7 +31,7 @@ constexpr std::u8string_view doctype_prefix = u8"<!DOCTYPE";
 
 bool is_character_reference_content(std::u8string_view str)
 {
-    if (str.starts_with(u8"#x")) {
+    if (str.starts_with(u8"#x") || str.starts_with(u8"#X")) {
         return str.length() > 2 && std::ranges::all_of(str.substr(2), is_ascii_hex_digit);
     }
     if (str.starts_with(u8'#')) {
-- 
2.43.0


From 221af7f3f09682a884927a4284b0d9bdc70a3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 089/173] fix: html: do not search text again for every
 character

---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 8278971..1ca480f 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -526,8 +526,8 @@ private:
                 advance(remainder.length());
                 break;
             }
-            if (remainder[safe_length] == u8'<') {
-                advance(safe_length);
+            advance(safe_length);
+            if (remainder[0] == u8'<') {
                 break;
             }
             if (!expect_character_reference()) {
-- 
2.43.0


From f64d74ac796bf10dce4f81e2bcba6ffc88e31c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 090/173] fix: xml: hyphens are part of names

---
 include/ulight/impl/lang/xml.hpp | 2 +-
 src/main/cpp/lang/xml.cpp        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index e1918ce..5416a16 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -51,7 +51,7 @@ inline constexpr struct Is_XML_Name {
         // https://www.w3.org/TR/REC-xml/#sec-common-syn
         return is_ascii_digit(c) //
             || is_xml_name_start(c) //
-            || c == U':' //
+            || c == U'-' //
             || c == U'.' //
             || c == U'\u00b7' //
             || (c >= U'\u0300' && c <= U'\u036f') //
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 16aae3f..cb2de0e 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -180,8 +180,8 @@ std::size_t match_entity_reference(const std::u8string_view str)
     }
     const std::size_t result = str.find(u8';', 1);
     std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
+    const bool success = result != std::u8string_view::npos
+        && !ref_content.contains(u8'-') && match_name(ref_content) == ref_content.size();
     return success ? result + 1 : 0;
 }
 
-- 
2.43.0


From 448846c6c4d87d4eef605057f7259413d9cb8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 091/173] fix: xml: accept quoted versions in XML declarations

---
 src/main/cpp/lang/xml.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index cb2de0e..ac88c58 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -429,12 +429,17 @@ private:
             }
             emit_and_advance(attr_name.size(), Highlight_Type::markup_attr);
 
+            expect_whitespace();
             if (!remainder.starts_with(u8'=')) {
                 return;
             }
             emit_and_advance(1, Highlight_Type::symbol_punc);
+            expect_whitespace();
 
-            if (!remainder.empty()) {
+            if (remainder.starts_with(u8'\'') || remainder.starts_with(u8'"')) {
+                expect_attribute_value();
+            }
+            else if (!remainder.empty()) {
                 expect_val();
             }
         };
-- 
2.43.0


From 4fbf0f938198ccca5ec53f51bc079c834b6edfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 092/173] fix: xml: only the processing instruction target xml
 is reserved

---
 src/main/cpp/lang/xml.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index ac88c58..56c75bd 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -399,7 +399,8 @@ private:
     bool expect_xml_decl()
     {
         // https://www.w3.org/TR/xml/#NT-XMLDecl
-        if (!remainder.starts_with(xml_tag)) {
+        if (!remainder.starts_with(xml_tag)
+            || !match_whitespace(remainder.substr(xml_tag.length()))) {
             return false;
         }
         emit_and_advance(xml_tag.size(), Highlight_Type::name_macro);
@@ -483,14 +484,15 @@ private:
         constexpr auto is_processing_name_end = [](std::u8string_view str) {
             return match_whitespace(str) || str.starts_with(u8"?>");
         };
+        const std::u8string_view target = remainder;
         const std::size_t name_length
             = expect_name(Highlight_Type::name_macro, is_processing_name_end);
         if (!name_length) {
             return true;
         }
 
-        const std::u8string_view target_name = remainder.substr(0, name_length);
-        if (ascii::contains_ignore_case(target_name, u8"xml")) {
+        const std::u8string_view target_name = target.substr(0, name_length);
+        if (ascii::equals_ignore_case(target_name, u8"xml")) {
             return true;
         }
 
-- 
2.43.0


From bd2abcf386ef94d295a9be41511bd022d8b9a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 093/173] fix: xml: end document type declarations without
 internal subset at >

---
 src/main/cpp/lang/xml.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 56c75bd..dfa9718 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -353,7 +353,9 @@ private:
             expect_external_id();
         }
         else if (!remainder.starts_with(u8'[')) {
-            const std::size_t word_len = ascii::length_if_not(remainder, is_xml_whitespace);
+            const std::size_t word_len = ascii::length_if_not(remainder, [](char8_t c) {
+                return is_xml_whitespace(c) || c == u8'[' || c == u8'>';
+            });
             advance(word_len);
 
             expect_whitespace();
@@ -368,6 +370,10 @@ private:
         }
 
         expect_whitespace();
+        if (remainder.starts_with(u8'>')) {
+            emit_and_advance(1, Highlight_Type::name_macro);
+            return true;
+        }
         if (!remainder.starts_with(u8'[')) {
             return true;
         }
-- 
2.43.0


From f849688cedf0350766325f4a3619320692dce82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 094/173] fix: xml: names in markup declarations end at >

---
 src/main/cpp/lang/xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index dfa9718..b7a18fe 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -270,7 +270,7 @@ private:
 
         emit_and_advance(2, Highlight_Type::name_macro);
         constexpr auto after_markup_decl_name
-            = [](std::u8string_view str) { return match_whitespace(str); };
+            = [](std::u8string_view str) { return match_whitespace(str) || str.starts_with(u8'>'); };
 
         expect_name(Highlight_Type::name_macro, after_markup_decl_name);
         expect_whitespace();
-- 
2.43.0


From 70bb730653cf3ff524b5c38dae986d39e27e0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 095/173] fix: xml: highlight occurrence indicators in content
 models

---
 src/main/cpp/lang/xml.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index b7a18fe..4fab7f4 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -286,11 +286,7 @@ private:
 
         while (!remainder.starts_with(u8'>') && !remainder.empty()) {
 
-            if (remainder.starts_with(u8')') || //
-                remainder.starts_with(u8'(') || //
-                remainder.starts_with(u8'|') || //
-                remainder.starts_with(u8'*') || //
-                remainder.starts_with(u8',')) { //
+            if (is_contentspec_non_name_char(remainder.front())) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
             }
             else if (const std::size_t att_type_len = match_att_type(remainder)) {
-- 
2.43.0


From 799b79bd34bad414bf5fc7a06c46bb71f15d065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 096/173] fix: xml: do not highlight prefixes of names as
 keywords

---
 src/main/cpp/lang/xml.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 4fab7f4..04378f2 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -295,15 +295,6 @@ private:
             else if (const std::size_t default_decl_len = match_default_decl_type(remainder)) {
                 emit_and_advance(default_decl_len, Highlight_Type::keyword);
             }
-            else if (const std::size_t external_id_len = match_external_id_type(remainder)) {
-                emit_and_advance(external_id_len, Highlight_Type::keyword);
-            }
-            else if (const std::size_t content_spec_len = match_content_spec_type(remainder)) {
-                emit_and_advance(content_spec_len, Highlight_Type::keyword);
-            }
-            else if (const std::size_t ndata_len = match_ndata_decl(remainder)) {
-                emit_and_advance(ndata_len, Highlight_Type::keyword);
-            }
             else if (const std::size_t pcdata_decl_len = match_pcdata_decl(remainder)) {
                 emit_and_advance(pcdata_decl_len, Highlight_Type::keyword);
             }
@@ -311,7 +302,12 @@ private:
                 emit_and_advance(pe_ref_len, Highlight_Type::string_escape);
             }
             else if (const std::size_t name_len = match_name(remainder)) {
-                emit_and_advance(name_len, Highlight_Type::name);
+                const bool is_keyword = match_external_id_type(remainder) == name_len
+                    || match_content_spec_type(remainder) == name_len
+                    || match_ndata_decl(remainder) == name_len;
+                emit_and_advance(
+                    name_len, is_keyword ? Highlight_Type::keyword : Highlight_Type::name
+                );
             }
             else if (remainder.starts_with(u8'\'') || remainder.starts_with(u8'"')) {
                 expect_attribute_value();
-- 
2.43.0


From 386dac540ffe5e60ae6528daf2865d0793673180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 097/173] fix: xml: accept parameter entity references between
 declarations

---
 src/main/cpp/lang/xml.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 04378f2..e7a4305 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -324,6 +324,20 @@ private:
         return true;
     }
 
+    bool expect_parameter_entity_reference()
+    {
+        // https://www.w3.org/TR/xml/#NT-PEReference
+        if (!remainder.starts_with(u8'%')) {
+            return false;
+        }
+        const std::size_t name_length = match_name(remainder.substr(1));
+        if (name_length == 0 || !remainder.substr(1 + name_length).starts_with(u8';')) {
+            return false;
+        }
+        emit_and_advance(name_length + 2, Highlight_Type::string_escape);
+        return true;
+    }
+
     bool expect_doctype_decl()
     {
         // https://www.w3.org/TR/xml/#NT-doctypedecl
@@ -372,7 +386,7 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_punc);
 
         expect_whitespace();
-        while (expect_markup_decl()) {
+        while (expect_parameter_entity_reference() || expect_markup_decl()) {
             expect_whitespace();
             if (remainder.starts_with(u8'>')) {
                 emit_and_advance(1, Highlight_Type::name_macro);
-- 
2.43.0


From 759802d1f876ad75c022bfb5a6135077e070e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 098/173] fix: xml: recognize references to entities with any
 name

---
 src/main/cpp/lang/xml.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index e7a4305..951a27d 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -200,6 +200,25 @@ std::size_t match_pe_reference(const std::u8string_view str)
     return success ? result + 1 : 0;
 }
 
+namespace {
+
+/// @brief Matches a character reference or a reference to a general entity.
+[[nodiscard]]
+std::size_t match_reference(const std::u8string_view str)
+{
+    // https://www.w3.org/TR/xml/#NT-Reference
+    if (str.starts_with(u8"&#")) {
+        return str.starts_with(u8"&#X") ? 0 : html::match_character_reference(str);
+    }
+    if (!str.starts_with(u8'&')) {
+        return 0;
+    }
+    const std::size_t name_length = match_name(str.substr(1));
+    return name_length != 0 && str.substr(1 + name_length).starts_with(u8';') ? name_length + 2 : 0;
+}
+
+} // namespace
+
 struct XML_Highlighter : Highlighter_Base {
 
     [[nodiscard]]
@@ -550,7 +569,7 @@ private:
     bool expect_reference()
     {
         // https://www.w3.org/TR/xml/#NT-CharRef
-        if (std::size_t ref_length = html::match_character_reference(remainder)) {
+        if (std::size_t ref_length = match_reference(remainder)) {
             emit_and_advance(ref_length, Highlight_Type::string_escape);
             return true;
         }
@@ -650,14 +669,14 @@ private:
         while (!remainder.empty() && piece_length < remainder.length()
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
-            if ((remainder[piece_length] == u8'&' && !html::match_character_reference(candidate))
+            if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
                 || remainder[piece_length] == u8'<') {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
             }
             else if (remainder[piece_length] == u8'&'
-                     && html::match_character_reference(candidate)) {
+                     && match_reference(candidate)) {
                 highlight_piece();
                 expect_reference();
                 piece_length = 0;
-- 
2.43.0


From 48dda4660d0a01e7e3c1f7db13426c13584bacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 099/173] fix: xml: skip a byte order mark before the XML
 declaration

---
 src/main/cpp/lang/xml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 951a27d..3145fa7 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -7,6 +7,7 @@
 #include "ulight/impl/buffer.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/strings.hpp"
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/unicode.hpp"
 #include "ulight/impl/unicode_algorithm.hpp"
@@ -233,6 +234,9 @@ struct XML_Highlighter : Highlighter_Base {
 
     bool operator()()
     {
+        if (remainder.starts_with(byte_order_mark8)) {
+            advance(byte_order_mark8.length());
+        }
         expect_prolog();
         while (!remainder.empty()) {
             if (expect_comment() || //
-- 
2.43.0


From ba2b983c66cd55b4d9d482007168e0d8d76bde8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 100/173] fix: llvm: recognize hexadecimal floating-point
 numbers of all formats

---
 src/main/cpp/lang/llvm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8411d91..cd99f8b 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -354,11 +354,13 @@ private:
     {
         // https://llvm.org/docs/LangRef.html#simple-constants
         static constexpr Number_Prefix prefixes[] {
-            { u8"0x"sv, 16 }, // float and double
+            // Longer prefixes must come first.
+            { u8"0xH"sv, 16 }, // IEEE 16-bit
             { u8"0xK"sv, 16 }, // x86 80-bit
             { u8"0xL"sv, 16 }, // IEEE 128-bit
             { u8"0xM"sv, 16 }, // PowerPC 128-bit
             { u8"0xR"sv, 16 }, // bfloat 16-bit
+            { u8"0x"sv, 16 }, // float and double
             { u8"s0x"sv, 16 }, // signed integer
             { u8"u0x"sv, 16 }, // unsigned integer
         };
-- 
2.43.0


From b4e4cc2b1b10545676226fe2f6704c619b5c96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 101/173] fix: llvm: highlight negative numbers as numbers

---
 src/main/cpp/lang/llvm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index cd99f8b..94b1801 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -208,6 +208,12 @@ private:
             consume_identifier();
             break;
         }
+        case u8'-': {
+            if (remainder.length() < 2 || !is_ascii_digit(remainder[1]) || !expect_number()) {
+                goto default_case;
+            }
+            break;
+        }
         case u8's':
         case u8'u': {
             // https://llvm.org/docs/LangRef.html#simple-constants
-- 
2.43.0


From 2c69c1af2af5241381e482f639c3371b22c3d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 102/173] fix: llvm: labels may contain dots and dollar signs

---
 src/main/cpp/lang/llvm.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 94b1801..39b8242 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -289,17 +289,18 @@ private:
 
     bool expect_keyword_or_label()
     {
-        const std::size_t length = match_keyword(remainder);
-        if (!length) {
-            return false;
-        }
-        if (remainder.substr(length).starts_with(u8':')) {
+        const std::size_t label_length = ascii::length_if(remainder, is_llvm_identifier);
+        if (label_length && remainder.substr(label_length).starts_with(u8':')) {
             // TODO: this is not very robust;
             //       it does not consider intervening whitespace
-            emit_and_advance(length, Highlight_Type::name_label_decl);
+            emit_and_advance(label_length, Highlight_Type::name_label_decl);
             emit_and_advance(1, Highlight_Type::name_label_delim);
             return true;
         }
+        const std::size_t length = match_keyword(remainder);
+        if (!length) {
+            return false;
+        }
 
         const std::u8string_view keyword = remainder.substr(0, length);
         emit_and_advance(length, classify_keyword(keyword));
-- 
2.43.0


From 679ccaf0b42ec7c410c5cdff551b979ae1d3df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 103/173] fix: llvm: metadata, attribute groups and pointers
 are not errors

---
 src/main/cpp/lang/llvm.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 39b8242..4e256dc 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -185,11 +185,16 @@ private:
             emit_and_advance(1, Highlight_Type::symbol_brace);
             break;
         }
+        case u8'!':
+        case u8'#':
+        case u8'*':
         case u8',':
         case u8':':
         case u8'<':
         case u8'=':
-        case u8'>': {
+        case u8'>':
+        case u8'^':
+        case u8'|': {
             emit_and_advance(1, Highlight_Type::symbol_punc);
             break;
         }
-- 
2.43.0


From a3cfb6eb8c659e59aeffaa87ddaf4243a1c60daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 104/173] fix: llvm: the ellipsis of variadic functions is not
 an error

---
 src/main/cpp/lang/llvm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 4e256dc..0d6f8d4 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -233,6 +233,11 @@ private:
             if (expect_keyword_or_label()) {
                 break;
             }
+            constexpr std::u8string_view ellipsis = u8"...";
+            if (remainder.starts_with(ellipsis)) {
+                emit_and_advance(ellipsis.length(), Highlight_Type::symbol_punc);
+                break;
+            }
             emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
             break;
         }
-- 
2.43.0


From 6cd001e50966006d4dbf662342507328a2894681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 105/173] fix: yaml: flow indicators do not end plain scalars
 in block context

---
 src/main/cpp/lang/yaml.cpp | 53 ++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index c44fe30..d79c2bc 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -219,6 +219,11 @@ struct Highlighter : Highlighter_Base {
     {
     }
 
+private:
+    /// @brief The amount of flow collections that surround the current position.
+    std::size_t flow_level = 0;
+
+public:
     bool operator()()
     {
         // https://yaml.org/spec/1.2.2/#l-yaml-stream
@@ -238,9 +243,13 @@ private:
     // Line-level utilities
     // ========================================================================
 
-    /// @brief Skip to the next line.
+    /// @brief Skip to the next line, which includes any comment at the end of the current line.
     void skip_line()
     {
+        consume_inline_whitespace();
+        if (remainder.starts_with(u8'#')) {
+            consume_comment();
+        }
         while (!remainder.empty() && !match_line_break(remainder)) {
             advance(1);
         }
@@ -699,13 +708,17 @@ private:
 
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
+            ++flow_level;
             consume_flow_sequence(indent);
+            --flow_level;
             return;
         }
 
         // Flow mapping: {...}
         if (remainder.starts_with(u8'{')) {
+            ++flow_level;
             consume_flow_mapping(indent);
+            --flow_level;
             return;
         }
 
@@ -1088,6 +1101,31 @@ private:
         flush();
     }
 
+    /// @brief Returns `true` iff `str` begins with whitespace, a line break, or is empty.
+    [[nodiscard]]
+    static bool is_separator(const std::u8string_view str)
+    {
+        return str.empty() || is_yaml_whitespace(str[0]) || match_line_break(str);
+    }
+
+    /// @brief Returns `true` iff a plain scalar cannot continue past `length` code units,
+    /// other than because of a colon.
+    [[nodiscard]]
+    bool is_plain_scalar_end(const std::size_t length) const
+    {
+        // https://yaml.org/spec/1.2.2/#ns-plain
+        const std::u8string_view rest = remainder.substr(length);
+        if (rest.empty() || match_line_break(rest)) {
+            return true;
+        }
+        if (flow_level != 0 && is_yaml_flow_indicator(rest[0])) {
+            return true;
+        }
+        // A comment has to be separated from the scalar by whitespace.
+        const std::size_t space = ascii::length_if(rest, is_yaml_whitespace);
+        return space != 0 && rest.substr(space).starts_with(u8'#');
+    }
+
     void consume_plain_scalar(const bool is_key = false)
     {
         // https://yaml.org/spec/1.2.2/#ns-plain
@@ -1146,11 +1184,7 @@ private:
         std::size_t length = 0;
         while (length < remainder.length()) {
             const char8_t c = remainder[length];
-            if (is_yaml_plain_terminator(c)) {
-                break;
-            }
-            if (c == u8' ' && length > 0 && length + 1 < remainder.length()
-                && remainder[length + 1] == u8'#') {
+            if (is_plain_scalar_end(length)) {
                 break;
             }
             // Colon only terminates when it separates a key from a value
@@ -1158,11 +1192,8 @@ private:
             // character of the scalar).
             // A colon at position zero is just part of the scalar content
             // (e.g. \":value\" inside a flow sequence).
-            if (c == u8':' && length > 0) {
-                if (length + 1 >= remainder.length() || remainder[length + 1] == u8' '
-                    || match_line_break(remainder.substr(length + 1))) {
-                    break;
-                }
+            if (c == u8':' && length > 0 && is_separator(remainder.substr(length + 1))) {
+                break;
             }
             ++length;
         }
-- 
2.43.0


From cd674773ca639332c41940d53a628bc6a01f16e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 106/173] fix: yaml: null, Booleans, and numbers have to be
 whole scalars

---
 src/main/cpp/lang/yaml.cpp | 39 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index d79c2bc..f22ac72 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1126,20 +1126,31 @@ private:
         return space != 0 && rest.substr(space).starts_with(u8'#');
     }
 
+    /// @brief Returns `true` iff a plain scalar ends after `length` code units,
+    /// possibly followed by whitespace.
+    [[nodiscard]]
+    bool is_whole_plain_scalar(const std::size_t length) const
+    {
+        const std::u8string_view rest = remainder.substr(length);
+        if (rest.starts_with(u8':') && is_separator(rest.substr(1))) {
+            return true;
+        }
+        return is_plain_scalar_end(length + ascii::length_if(rest, is_yaml_whitespace))
+            || is_plain_scalar_end(length);
+    }
+
     void consume_plain_scalar(const bool is_key = false)
     {
         // https://yaml.org/spec/1.2.2/#ns-plain
         // First, check for special plain values: null, bool, number
-        if (remainder.starts_with(u8'~')) {
+        if (remainder.starts_with(u8'~') && is_whole_plain_scalar(1)) {
             emit_and_advance(1, Highlight_Type::null);
             return;
         }
 
         // Check for null/boolean identifiers
         if (const Plain_Identifier_Result id = match_plain_identifier(remainder)) {
-            if (id.length >= remainder.length() || is_yaml_word_terminator(remainder[id.length])
-                || match_line_break(remainder.substr(id.length)) || remainder[id.length] == u8':'
-                || remainder[id.length] == u8'-') {
+            if (is_whole_plain_scalar(id.length)) {
                 const auto highlight = id.type == Plain_Identifier_Type::null ? Highlight_Type::null
                     : id.type == Plain_Identifier_Type::bool_true  ? Highlight_Type::bool_
                     : id.type == Plain_Identifier_Type::bool_false ? Highlight_Type::bool_
@@ -1154,25 +1165,7 @@ private:
         // (up to a plain-terminator, not a generic word-terminator).
         // Otherwise "123 Main St" would be split into number + unhighlighted text.
         if (const Common_Number_Result num = match_number(remainder)) {
-            if (num.length >= remainder.length()) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
-            const char8_t peek = remainder[num.length];
-            const bool number_terminates
-                = is_yaml_plain_terminator(peek) || match_line_break(remainder.substr(num.length));
-            const bool number_followed_by_colon = peek == u8':'
-                && (num.length + 1 >= remainder.length() || remainder[num.length + 1] == u8' '
-                    || match_line_break(remainder.substr(num.length + 1)));
-            // Space + flow indicator (e.g. "42 }" in flow mappings) or space + comment.
-            const bool number_then_terminating_space = num.length + 1 < remainder.length()
-                && peek == u8' '
-                && (remainder[num.length + 1] == u8'#'
-                    || is_yaml_flow_indicator(remainder[num.length + 1]));
-            if (number_terminates || peek == u8']' || peek == u8'}' || number_followed_by_colon
-                || number_then_terminating_space) {
+            if (is_whole_plain_scalar(num.length)) {
                 const auto highlight
                     = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
                 emit_and_advance(num.length, highlight);
-- 
2.43.0


From ae341de4406cb21209afc91e29edff22d2ab6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 107/173] fix: yaml: recognize block mapping keys that contain
 quotes, # or flow collections

---
 src/main/cpp/lang/yaml.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index f22ac72..37605d5 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -588,6 +588,7 @@ private:
         // We need to find the ': ' separator.
         const std::u8string_view line = remainder;
         std::size_t colon_pos = 0;
+        std::size_t flow_depth = 0;
         bool in_quote = false;
         char8_t quote_char = 0;
 
@@ -603,18 +604,27 @@ private:
                 }
             }
             else {
-                if (c == u8'"' || c == u8'\'') {
+                const char8_t previous = colon_pos == 0 ? u8' ' : line[colon_pos - 1];
+                const bool is_start = is_yaml_whitespace(previous)
+                    || (flow_depth != 0 && (is_yaml_flow_indicator(previous) || previous == u8':'));
+                if ((c == u8'"' || c == u8'\'') && is_start) {
                     in_quote = true;
                     quote_char = c;
                 }
-                else if (c == u8'#') {
+                else if (c == u8'#' && is_yaml_whitespace(previous)) {
                     // Comment starts - no colon after this
                     break;
                 }
-                else if (c == u8':') {
+                else if ((c == u8'[' || c == u8'{') && (flow_depth != 0 || colon_pos == 0)) {
+                    // The colons in flow collections do not separate a key from its value.
+                    ++flow_depth;
+                }
+                else if ((c == u8']' || c == u8'}') && flow_depth != 0) {
+                    --flow_depth;
+                }
+                else if (c == u8':' && flow_depth == 0) {
                     // Found colon! Check if followed by space or end of line
-                    if (colon_pos + 1 >= line.length() || line[colon_pos + 1] == u8' '
-                        || match_line_break(line.substr(colon_pos + 1))) {
+                    if (is_separator(line.substr(colon_pos + 1))) {
                         // It's a mapping key!
                         // Highlight the key
                         const std::u8string_view key_part = remainder.substr(0, colon_pos);
-- 
2.43.0


From 5b10d840e54740ef10667b4750b02d3e46efc799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 108/173] fix: yaml: recognize sequence entries whose item is
 on the next line

---
 src/main/cpp/lang/yaml.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 37605d5..3cb2315 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -552,6 +552,13 @@ private:
                 continue;
             }
 
+            // Handle block sequence entry whose item is on the following lines.
+            if (remainder.starts_with(u8'-') && is_separator(remainder.substr(1))) {
+                emit_and_advance(1, Highlight_Type::symbol_punc);
+                skip_line();
+                continue;
+            }
+
             // Handle block scalar: | or > as a standalone block entry.
             const bool is_block_scalar_header = remainder.starts_with(u8"| ")
                 || remainder.starts_with(u8"> ")
-- 
2.43.0


From 1b9093d3d0023604409f083c22b60aaebee2a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 109/173] fix: yaml: do not skip the line that follows a block
 scalar with properties

---
 src/main/cpp/lang/yaml.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 3cb2315..258f609 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -518,10 +518,13 @@ private:
                  && match_line_break(remainder.substr(1)))) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 consume_whitespace_and_comments();
+                bool is_block_scalar = false;
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    consume_flow_node(line_indent + 1);
+                    is_block_scalar = consume_flow_node(line_indent);
+                }
+                if (!is_block_scalar) {
+                    skip_line();
                 }
-                skip_line();
                 // Expect : value on next line(s)
                 consume_whitespace_and_comments();
                 if (!remainder.empty() && remainder.starts_with(u8": ")) {
@@ -576,8 +579,9 @@ private:
 
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                consume_flow_node(line_indent);
-                skip_line();
+                if (!consume_flow_node(line_indent)) {
+                    skip_line();
+                }
                 continue;
             }
 
@@ -663,12 +667,11 @@ private:
                         }
 
                         // Value
-                        const bool is_block_scalar = !remainder.empty()
-                            && (remainder[0] == u8'|' || remainder[0] == u8'>');
+                        bool is_block_scalar = false;
                         const bool has_inline_value = !remainder.empty()
                             && !match_line_break(remainder) && remainder[0] != u8'#';
                         if (has_inline_value) {
-                            consume_flow_node(line_indent);
+                            is_block_scalar = consume_flow_node(line_indent);
                         }
                         // Block scalars are self-contained and consume their own content lines;
                         // do not skip_line() or descend into block_node for them.
@@ -713,11 +716,13 @@ private:
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
-    void consume_flow_node(const std::size_t indent, const bool is_key = false)
+    /// @returns `true` iff the node is a block scalar,
+    /// in which case the lines of the block scalar have also been consumed.
+    bool consume_flow_node(const std::size_t indent, const bool is_key = false)
     {
         consume_whitespace_and_comments();
         if (remainder.empty() || match_line_break(remainder)) {
-            return;
+            return false;
         }
 
         // Check for node properties: tag and/or anchor
@@ -728,7 +733,7 @@ private:
             ++flow_level;
             consume_flow_sequence(indent);
             --flow_level;
-            return;
+            return false;
         }
 
         // Flow mapping: {...}
@@ -736,17 +741,18 @@ private:
             ++flow_level;
             consume_flow_mapping(indent);
             --flow_level;
-            return;
+            return false;
         }
 
         // Block scalars: | or >
-        if (remainder.starts_with(u8'|') || remainder.starts_with(u8'>')) {
+        if (flow_level == 0 && (remainder.starts_with(u8'|') || remainder.starts_with(u8'>'))) {
             consume_block_scalar(indent);
-            return;
+            return true;
         }
 
         // Flow scalars
         consume_flow_scalar(is_key);
+        return false;
     }
 
     /// @brief Consume flow node content of a specific length with given highlight type.
-- 
2.43.0


From 4a350ae4acdd46a5263d8d62c4202a654922be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 110/173] fix: yaml: highlight the content after a document
 marker, and require a separator

---
 src/main/cpp/lang/yaml.cpp | 42 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 258f609..c0375b2 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -265,6 +265,26 @@ private:
         }
     }
 
+    /// @brief Returns `true` iff the remainder starts with the marker `---` or `...`.
+    [[nodiscard]]
+    bool starts_with_document_marker() const
+    {
+        return match_document_marker(remainder) && is_separator(remainder.substr(3));
+    }
+
+    /// @brief Consume the `---` at the start of a document, and any content on the same line.
+    void consume_document_start()
+    {
+        // https://yaml.org/spec/1.2.2/#rule-c-directives-end
+        emit_and_advance(3, Highlight_Type::symbol_punc);
+        consume_inline_whitespace();
+        const bool has_content
+            = !remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#';
+        if (!has_content || !consume_flow_node(0)) {
+            skip_line();
+        }
+    }
+
     /// @brief Get the indentation (number of spaces) at the start of the current line.
     [[nodiscard]]
     std::size_t current_indent() const
@@ -309,7 +329,7 @@ private:
                 break;
             }
             // Document end marker: ...
-            if (remainder.starts_with(u8"...")) {
+            if (remainder.starts_with(u8"...") && starts_with_document_marker()) {
                 if (const std::size_t indent = current_indent(); indent == 0) {
                     consume_indent(indent);
                     emit_and_advance(3, Highlight_Type::symbol_punc);
@@ -318,11 +338,9 @@ private:
                 }
             }
             // Directives end marker: ---
-            if (remainder.starts_with(u8"---")) {
+            if (remainder.starts_with(u8"---") && starts_with_document_marker()) {
                 if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
+                    consume_document_start();
                     break; // Start of next document
                 }
             }
@@ -341,10 +359,8 @@ private:
         const std::size_t indent = current_indent();
 
         // Check for directives end marker (explicit document start)
-        if (indent == 0 && remainder.starts_with(u8"---")) {
-            consume_indent(0);
-            emit_and_advance(3, Highlight_Type::symbol_punc);
-            skip_line();
+        if (indent == 0 && remainder.starts_with(u8"---") && starts_with_document_marker()) {
+            consume_document_start();
             consume_whitespace_and_comments();
             if (eof()) {
                 return;
@@ -356,9 +372,8 @@ private:
             consume_directives();
             // After directives, expect ---
             consume_whitespace_and_comments();
-            if (!remainder.empty() && remainder.starts_with(u8"---")) {
-                emit_and_advance(3, Highlight_Type::symbol_punc);
-                skip_line();
+            if (remainder.starts_with(u8"---") && starts_with_document_marker()) {
+                consume_document_start();
                 consume_whitespace_and_comments();
             }
             if (eof()) {
@@ -504,8 +519,7 @@ private:
             const std::size_t line_indent = current_indent();
 
             // Document markers at indent 0 stop block parsing.
-            if (line_indent == 0
-                && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
+            if (line_indent == 0 && starts_with_document_marker()) {
                 return;
             }
 
-- 
2.43.0


From b854cec5dd29fa01f65f21d6519080c01a6c288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 111/173] fix: yaml: block scalar indicators can be in any
 order

---
 src/main/cpp/lang/yaml.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index c0375b2..cf345d3 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1247,13 +1247,12 @@ private:
         // Block scalar indicator
         emit_and_advance(1, Highlight_Type::string_delim);
 
-        // Optional chomping indicator (+ or -)
-        if (!remainder.empty() && (remainder[0] == u8'+' || remainder[0] == u8'-')) {
-            emit_and_advance(1, Highlight_Type::number_decor);
-        }
-        // Optional indentation indicator (1-9)
-        if (!remainder.empty() && remainder[0] >= u8'1' && remainder[0] <= u8'9') {
-            emit_and_advance(1, Highlight_Type::number_decor);
+        // Optional chomping indicator (+ or -) and indentation indicator (1-9), in any order
+        for (int i = 0; i < 2 && !remainder.empty(); ++i) {
+            if (remainder[0] == u8'+' || remainder[0] == u8'-'
+                || (remainder[0] >= u8'1' && remainder[0] <= u8'9')) {
+                emit_and_advance(1, Highlight_Type::number_decor);
+            }
         }
         // Optional comment after header
         if (!remainder.empty() && remainder[0] == u8'#') {
-- 
2.43.0


From f375509688597f6a0a773990140908cb66c61577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 112/173] fix: yaml: lines of spaces do not end a block scalar

---
 src/main/cpp/lang/yaml.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index cf345d3..80591b4 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1262,7 +1262,8 @@ private:
 
         // Determine content indentation from the first non-empty content line.
         // Skip leading blank lines first.
-        while (!remainder.empty() && match_line_break(remainder)) {
+        while (!remainder.empty() && match_line_break(remainder.substr(current_indent()))) {
+            advance(current_indent());
             skip_line_break();
         }
         const std::size_t content_indent = current_indent();
@@ -1276,6 +1277,13 @@ private:
         while (!remainder.empty()) {
             const std::size_t line_indent = current_indent();
 
+            // Lines that consist only of indentation are empty.
+            if (line_indent < content_indent && match_line_break(remainder.substr(line_indent))) {
+                advance(line_indent);
+                skip_line_break();
+                continue;
+            }
+
             // De-dent past the content indentation ends the block scalar.
             if (line_indent < content_indent && !match_line_break(remainder)) {
                 break;
-- 
2.43.0


From ec76117c95e16c91072914ed8169a5306ff7b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 113/173] fix: yaml: highlight the colon of single pairs in
 flow sequences

---
 src/main/cpp/lang/yaml.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 80591b4..be23264 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -907,6 +907,13 @@ private:
             case u8']': emit_and_advance(1, Highlight_Type::symbol_square); return;
             case u8'}': emit_and_advance(1, Highlight_Type::error); return;
             case u8',': emit_and_advance(1, Highlight_Type::symbol_punc); continue;
+            case u8':':
+                // Single pair, e.g. [a: b]
+                if (is_separator(remainder.substr(1))) {
+                    emit_and_advance(1, Highlight_Type::symbol_punc);
+                    continue;
+                }
+                break;
             case u8'\r':
             case u8'\n': skip_line_break(); continue;
             case u8'#':
-- 
2.43.0


From 8c7cbb64b58dba8dacd6a6a6e5aa5b675f2ba30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 114/173] fix: yaml: comments after sequence items and node
 properties are comments

---
 src/main/cpp/lang/yaml.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index be23264..d6cad82 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -555,15 +555,10 @@ private:
             // Handle block sequence entry: - item
             if (remainder.starts_with(u8"- ")) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
-                if (!remainder.empty() && remainder[0] == u8' ') {
-                    advance(1);
-                }
-                consume_whitespace_and_comments();
+                consume_inline_whitespace();
 
-                if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    try_consume_compact_sequence_or_mapping(line_indent + 1);
-                }
-                if (!remainder.empty() && match_line_break(remainder)) {
+                if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#'
+                    || !try_consume_compact_sequence_or_mapping(line_indent + 1)) {
                     skip_line();
                 }
                 continue;
@@ -708,25 +703,23 @@ private:
 
     /// @brief Try to consume a compact block sequence or mapping
     /// starting on the same line as a block entry indicator.
-    void try_consume_compact_sequence_or_mapping(const std::size_t indent)
+    /// @returns `true` iff there is no rest of the line to be skipped.
+    [[nodiscard]]
+    bool try_consume_compact_sequence_or_mapping(const std::size_t indent)
     {
-        if (remainder.empty()) {
-            return;
-        }
-
-        // Compact sequence: another "- " on the same line
+        // Compact sequence: another "-" on the same line
         // The entry is consumed by consume_block_nodes.
-        if (remainder.starts_with(u8"- ")) {
-            return;
+        if (remainder.starts_with(u8'-') && is_separator(remainder.substr(1))) {
+            return true;
         }
 
         // Compact mapping: "key: value" on the same line
         if (try_consume_block_mapping_key(indent)) {
-            return;
+            return true;
         }
 
         // Otherwise, just a flow node
-        consume_flow_node(indent);
+        return consume_flow_node(indent);
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
@@ -741,6 +734,9 @@ private:
 
         // Check for node properties: tag and/or anchor
         consume_node_properties();
+        if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
+            return false;
+        }
 
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
-- 
2.43.0


From f82b20121b1f6d79c0c8a1af8f538046fc05199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 115/173] fix: yaml: colons in flow collections with node
 properties do not separate block mapping keys

---
 src/main/cpp/lang/yaml.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index d6cad82..aa20bc5 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -599,6 +599,21 @@ private:
         }
     }
 
+    /// @brief Returns the length of any node properties (tags and anchors) at the start of `str`,
+    /// including the whitespace that separates them from the content of the node.
+    [[nodiscard]]
+    static std::size_t match_node_properties(const std::u8string_view str)
+    {
+        std::size_t length = 0;
+        while (length < str.length() && (str[length] == u8'!' || str[length] == u8'&')) {
+            while (!is_separator(str.substr(length))) {
+                ++length;
+            }
+            length += ascii::length_if(str.substr(length), is_yaml_whitespace);
+        }
+        return length;
+    }
+
     /// @brief Try to consume a block mapping key at the given indentation.
     /// Returns `true` if a key/value pair was consumed.
     [[nodiscard]]
@@ -607,6 +622,7 @@ private:
         // Look for "key: value" pattern on the current line.
         // We need to find the ': ' separator.
         const std::u8string_view line = remainder;
+        const std::size_t content_pos = match_node_properties(line);
         std::size_t colon_pos = 0;
         std::size_t flow_depth = 0;
         bool in_quote = false;
@@ -635,7 +651,7 @@ private:
                     // Comment starts - no colon after this
                     break;
                 }
-                else if ((c == u8'[' || c == u8'{') && (flow_depth != 0 || colon_pos == 0)) {
+                else if ((c == u8'[' || c == u8'{') && (flow_depth != 0 || colon_pos == content_pos)) {
                     // The colons in flow collections do not separate a key from its value.
                     ++flow_depth;
                 }
-- 
2.43.0


From 714a09750f544203397aae42479e1f06c55ee49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 116/173] fix: yaml: colons at the end of sexagesimal keys are
 not part of the number

---
 src/main/cpp/lang/yaml.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index aa20bc5..a37095a 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -114,8 +114,12 @@ Common_Number_Result match_number(const std::u8string_view str)
             if (second > 0) {
                 pos += second;
                 if (pos < str.length() && str[pos] == u8':') {
-                    ++pos;
-                    pos += ascii::length_if(str.substr(pos), is_ascii_digit);
+                    const std::size_t third
+                        = ascii::length_if(str.substr(pos + 1), is_ascii_digit);
+                    // Otherwise, the colon separates a key from its value.
+                    if (third > 0) {
+                        pos += 1 + third;
+                    }
                 }
                 return { .length = pos, .integer = pos };
             }
-- 
2.43.0


From 863cd0bdb2ee0deb5cb6cd3d0cbb86f8168728a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 117/173] fix: yaml: highlight comments after directives

---
 src/main/cpp/lang/yaml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index a37095a..74dadbf 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -421,6 +421,9 @@ private:
         while (!remainder.empty() && !match_line_break(remainder)) {
             if (is_yaml_whitespace(remainder[0])) {
                 advance(1);
+                if (remainder.starts_with(u8'#')) {
+                    break;
+                }
             }
             else {
                 emit_and_advance(code_point_length(), Highlight_Type::string);
-- 
2.43.0


From 5c26324c17bbcc50c1531ee5ef7c061e87b18c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 118/173] fix: yaml: escaped quotes do not end the
 single-quoted scalars before a colon

---
 src/main/cpp/lang/yaml.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 74dadbf..2ca10d7 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -640,7 +640,12 @@ private:
             const char8_t c = line[colon_pos];
             if (in_quote) {
                 if (c == quote_char) {
-                    in_quote = false;
+                    if (c == u8'\'' && line.substr(colon_pos + 1).starts_with(u8'\'')) {
+                        ++colon_pos; // skip escaped quote
+                    }
+                    else {
+                        in_quote = false;
+                    }
                 }
                 else if (c == u8'\\' && quote_char == u8'"') {
                     ++colon_pos; // skip escaped char
-- 
2.43.0


From 0ba3e0af4c9d4b512094aa1c15c61c3589e77f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 119/173] fix: yaml: quotes within plain scalars do not hide
 colons and comments

---
 src/main/cpp/lang/yaml.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 2ca10d7..ed73d8a 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -633,6 +633,10 @@ private:
         std::size_t colon_pos = 0;
         std::size_t flow_depth = 0;
         bool in_quote = false;
+        // `true` if only whitespace and node properties
+        // lie between the current position and the start of a node,
+        // i.e. if the current position is not within a plain scalar.
+        bool is_start = false;
         char8_t quote_char = 0;
 
         while (colon_pos < line.length() && line[colon_pos] != u8'\r' && line[colon_pos] != u8'\n'
@@ -653,10 +657,18 @@ private:
             }
             else {
                 const char8_t previous = colon_pos == 0 ? u8' ' : line[colon_pos - 1];
-                const bool is_start = is_yaml_whitespace(previous)
-                    || (flow_depth != 0 && (is_yaml_flow_indicator(previous) || previous == u8':'));
+                if (colon_pos == content_pos
+                    || (flow_depth != 0 && (is_yaml_flow_indicator(previous) || previous == u8':')
+                    )) {
+                    is_start = true;
+                }
+                if (flow_depth != 0 && is_start && (c == u8'!' || c == u8'&')) {
+                    colon_pos += match_node_properties(line.substr(colon_pos));
+                    continue;
+                }
                 if ((c == u8'"' || c == u8'\'') && is_start) {
                     in_quote = true;
+                    is_start = false;
                     quote_char = c;
                 }
                 else if (c == u8'#' && is_yaml_whitespace(previous)) {
@@ -722,6 +734,9 @@ private:
                         return true;
                     }
                 }
+                if (!is_yaml_whitespace(c)) {
+                    is_start = false;
+                }
             }
             ++colon_pos;
         }
-- 
2.43.0


From aff308ab9327971348bba7b15686424ebfd6ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 120/173] fix: yaml: block scalars start at the right
 indentation

---
 src/main/cpp/lang/yaml.cpp | 80 ++++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index ed73d8a..d32ef6b 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
+#include <utility>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -516,6 +517,10 @@ private:
     /// The required call stack does therefore not depend on the number of entries.
     void consume_block_nodes()
     {
+        // The column at which the remainder starts,
+        // which is zero except within compact sequences.
+        std::size_t column = 0;
+
         while (!eof()) {
             // Skip blank lines and comment lines, preserving indentation.
             skip_blank_and_comment_lines();
@@ -523,7 +528,7 @@ private:
                 break;
             }
 
-            const std::size_t line_indent = current_indent();
+            const std::size_t line_indent = std::exchange(column, 0) + current_indent();
 
             // Document markers at indent 0 stop block parsing.
             if (line_indent == 0 && starts_with_document_marker()) {
@@ -541,7 +546,7 @@ private:
                 consume_whitespace_and_comments();
                 bool is_block_scalar = false;
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    is_block_scalar = consume_flow_node(line_indent);
+                    is_block_scalar = consume_flow_node(line_indent + 1);
                 }
                 if (!is_block_scalar) {
                     skip_line();
@@ -562,10 +567,25 @@ private:
             // Handle block sequence entry: - item
             if (remainder.starts_with(u8"- ")) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
-                consume_inline_whitespace();
+                const std::size_t space = ascii::length_if(remainder, is_yaml_whitespace);
+                advance(space);
 
-                if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#'
-                    || !try_consume_compact_sequence_or_mapping(line_indent + 1)) {
+                // Compact sequence: another "-" on the same line
+                // The entry is consumed in the next iteration.
+                if (remainder.starts_with(u8'-') && is_separator(remainder.substr(1))) {
+                    column = line_indent + 1 + space;
+                    continue;
+                }
+                if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
+                    skip_line();
+                    continue;
+                }
+                // Compact mapping: "key: value" on the same line
+                if (try_consume_block_mapping_key(line_indent + 1 + space)) {
+                    continue;
+                }
+                // Otherwise, just a flow node
+                if (!consume_flow_node(line_indent + 1)) {
                     skip_line();
                 }
                 continue;
@@ -584,7 +604,7 @@ private:
                 || (remainder.starts_with(u8"|") && match_line_break(remainder.substr(1)))
                 || (remainder.starts_with(u8">") && match_line_break(remainder.substr(1)));
             if (is_block_scalar_header) {
-                consume_block_scalar(line_indent);
+                consume_block_scalar(line_indent == 0 ? 0 : line_indent + 1);
                 continue;
             }
 
@@ -595,7 +615,7 @@ private:
 
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                if (!consume_flow_node(line_indent)) {
+                if (!consume_flow_node(line_indent == 0 ? 0 : line_indent + 1)) {
                     skip_line();
                 }
                 continue;
@@ -720,7 +740,7 @@ private:
                         const bool has_inline_value = !remainder.empty()
                             && !match_line_break(remainder) && remainder[0] != u8'#';
                         if (has_inline_value) {
-                            is_block_scalar = consume_flow_node(line_indent);
+                            is_block_scalar = consume_flow_node(line_indent + 1);
                         }
                         // Block scalars are self-contained and consume their own content lines;
                         // do not skip_line() or descend into block_node for them.
@@ -744,28 +764,8 @@ private:
         return false;
     }
 
-    /// @brief Try to consume a compact block sequence or mapping
-    /// starting on the same line as a block entry indicator.
-    /// @returns `true` iff there is no rest of the line to be skipped.
-    [[nodiscard]]
-    bool try_consume_compact_sequence_or_mapping(const std::size_t indent)
-    {
-        // Compact sequence: another "-" on the same line
-        // The entry is consumed by consume_block_nodes.
-        if (remainder.starts_with(u8'-') && is_separator(remainder.substr(1))) {
-            return true;
-        }
-
-        // Compact mapping: "key: value" on the same line
-        if (try_consume_block_mapping_key(indent)) {
-            return true;
-        }
-
-        // Otherwise, just a flow node
-        return consume_flow_node(indent);
-    }
-
     /// @brief Consume a flow-level node (inline value on a single logical line).
+    /// @param indent The least indentation that the content of a block scalar can have.
     /// @returns `true` iff the node is a block scalar,
     /// in which case the lines of the block scalar have also been consumed.
     bool consume_flow_node(const std::size_t indent, const bool is_key = false)
@@ -1285,6 +1285,7 @@ private:
     // Block scalars (| and >)
     // ========================================================================
 
+    /// @param indent The least indentation that the content can have.
     void consume_block_scalar(const std::size_t indent)
     {
         // https://yaml.org/spec/1.2.2/#c-l+literal / #c-l+folded
@@ -1294,9 +1295,13 @@ private:
         emit_and_advance(1, Highlight_Type::string_delim);
 
         // Optional chomping indicator (+ or -) and indentation indicator (1-9), in any order
+        std::size_t explicit_indent = 0;
         for (int i = 0; i < 2 && !remainder.empty(); ++i) {
             if (remainder[0] == u8'+' || remainder[0] == u8'-'
                 || (remainder[0] >= u8'1' && remainder[0] <= u8'9')) {
+                if (is_ascii_digit(remainder[0])) {
+                    explicit_indent = std::size_t(remainder[0] - u8'0');
+                }
                 emit_and_advance(1, Highlight_Type::number_decor);
             }
         }
@@ -1306,14 +1311,18 @@ private:
         }
         skip_line();
 
-        // Determine content indentation from the first non-empty content line.
+        // Determine content indentation from the first non-empty content line,
+        // unless it is given explicitly.
         // Skip leading blank lines first.
         while (!remainder.empty() && match_line_break(remainder.substr(current_indent()))) {
             advance(current_indent());
             skip_line_break();
         }
-        const std::size_t content_indent = current_indent();
-        if (content_indent <= indent && !remainder.empty()) {
+        const std::size_t first_indent = current_indent();
+        const std::size_t content_indent = explicit_indent == 0
+            ? first_indent
+            : (indent == 0 ? 0 : indent - 1) + explicit_indent;
+        if (content_indent < indent && !remainder.empty()) {
             return;
         }
 
@@ -1335,6 +1344,11 @@ private:
                 break;
             }
 
+            // The content at the top level does not need any indentation.
+            if (line_indent == 0 && starts_with_document_marker()) {
+                break;
+            }
+
             // Empty lines are part of the content.
             if (match_line_break(remainder)) {
                 skip_line_break();
@@ -1347,7 +1361,7 @@ private:
             }
 
             // Consume the content indentation (no highlighting).
-            consume_indent(content_indent);
+            consume_indent(std::max(content_indent, first_indent));
 
             // Emit the rest of the line as string content.
             std::size_t length = 0;
-- 
2.43.0


From 1eb79a589c0f2cf901879ac701c2c4fbdf7caeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 121/173] fix: json: what follows true, false and null in
 arrays is not an error

---
 src/main/cpp/lang/json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..b742cf1 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -414,6 +414,7 @@ private:
             const auto coalescing
                 = highlight == Highlight_Type::error ? Coalescing::forced : Coalescing::normal;
             emit_and_advance(id.length, highlight, coalescing);
+            return true;
         }
         return false;
     }
-- 
2.43.0


From 46d393c65eeb37670b00925a9aed2a7e674f30c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 122/173] fix: json: form feeds are not whitespace

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0


From 045cb25e90b9d63b99a5aa2f746f9f8d3b8400cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 123/173] fix: json: report the text and position of block
 comments

---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index b742cf1..6865c89 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -526,8 +526,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From 6d3be9dc505a90aca6c30117b4c38f58f26328a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 124/173] fix: json: do not read past the end of numbers when
 parsing them

---
 src/main/cpp/lang/json.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 6865c89..65f7851 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,6 +1,7 @@
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 #include "ulight/json.hpp"
@@ -693,13 +694,10 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
-            char* str_end = nullptr;
-            const double value = std::strtod(str_begin, &str_end);
-            if (str_end == str_begin) {
-                error(JSON_Error::illegal_number);
-                return false;
-            }
+            // std::strtod requires a null-terminated string,
+            // and could match more characters than those in the number.
+            const std::string terminated { as_string_view(number_string) };
+            const double value = std::strtod(terminated.c_str(), nullptr);
             out.number(pos, number_string, value);
         }
         else {
-- 
2.43.0


From b32063d826846734a3785237dc349a82ba69fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 125/173] fix: json: documents with anything after the value
 are malformed

---
 src/main/cpp/lang/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 65f7851..d3110ee 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -443,7 +443,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From e61da926bb5ae6ff5450f1067ea8d05125c4974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 126/173] fix: json: report comments which are not allowed as
 such

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d3110ee..718baaf 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -491,6 +491,10 @@ private:
         if (!options.allow_comments) {
             const std::size_t white_length = match_whitespace(remainder);
             advance(white_length);
+            if (remainder.starts_with(u8"//") || remainder.starts_with(u8"/*")) {
+                error(JSON_Error::comment);
+                return false;
+            }
             return true;
         }
         while (true) {
-- 
2.43.0


From c7bb18fe2d937072934350b8b2fc615bde6cce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 127/173] fix: json: report every syntax error to the visitor

---
 src/main/cpp/lang/json.cpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 718baaf..674e8d9 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -551,6 +551,7 @@ private:
     bool consume_value()
     {
         if (remainder.empty()) {
+            error(JSON_Error::error);
             return false;
         }
         switch (remainder[0]) {
@@ -582,7 +583,7 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
-            return false;
+            break;
         }
         case u8'f': {
             if (remainder.starts_with(u8"false")) {
@@ -590,7 +591,7 @@ private:
                 advance_on_same_line(5);
                 return true;
             }
-            return false;
+            break;
         }
         case u8'n': {
             if (remainder.starts_with(u8"null")) {
@@ -598,10 +599,12 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
-            return false;
+            break;
         }
-        default: error(JSON_Error::illegal_escape); return false;
+        default: break;
         }
+        error(JSON_Error::illegal_character);
+        return false;
     }
 
     [[nodiscard]]
@@ -734,6 +737,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8'}')) {
                 out.pop_object(pos);
                 advance_on_same_line(1);
@@ -748,7 +754,13 @@ private:
             }
             if (remainder.starts_with(u8',')) {
                 advance_on_same_line(1);
-                if (!consume_whitespace_comments() || !consume_member()) {
+                if (!consume_whitespace_comments()) {
+                    return false;
+                }
+                if (remainder.empty()) {
+                    break;
+                }
+                if (!consume_member()) {
                     return false;
                 }
                 continue;
@@ -764,6 +776,10 @@ private:
     [[nodiscard]]
     bool consume_member()
     {
+        if (!remainder.starts_with(u8'"')) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
         if (!consume_string(String_Type::property)) {
             return false;
         }
@@ -810,6 +826,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8']')) {
                 out.pop_array(pos);
                 advance_on_same_line(1);
@@ -824,7 +843,13 @@ private:
             }
             if (remainder.starts_with(u8',')) {
                 advance_on_same_line(1);
-                if (!consume_whitespace_comments() || !consume_value()) {
+                if (!consume_whitespace_comments()) {
+                    return false;
+                }
+                if (remainder.empty()) {
+                    break;
+                }
+                if (!consume_value()) {
                     return false;
                 }
                 continue;
-- 
2.43.0


From 770141bf5674e7a1071045814d4c4d53fc9aa924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 128/173] fix: json: do not recurse once per nesting level

---
 src/main/cpp/lang/json.cpp | 250 +++++++++++++++++--------------------
 1 file changed, 117 insertions(+), 133 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 674e8d9..0a70204 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,8 +1,10 @@
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <memory_resource>
 #include <string>
 #include <string_view>
+#include <vector>
 
 #include "ulight/json.hpp"
 #include "ulight/ulight.hpp"
@@ -159,9 +161,21 @@ enum struct String_Type : bool {
     property,
 };
 
+/// @brief What is expected next within an object or array that has not been closed yet.
+enum struct Nesting : Underlying {
+    array_begin,
+    array_next,
+    object_begin,
+    object_next,
+};
+
 struct Highlighter : Highlighter_Base {
 private:
     const bool has_comments;
+    /// @brief The objects and arrays that have not been closed yet.
+    /// Nesting is tracked explicitly rather than through recursion,
+    /// so that the required call stack does not depend on the nesting depth.
+    std::pmr::vector<Nesting> nesting;
 
 public:
     Highlighter(
@@ -173,6 +187,7 @@ public:
     )
         : Highlighter_Base { out, source, memory, options }
         , has_comments { comments == Comment_Policy::always_allow || !options.strict }
+        , nesting { memory }
     {
     }
 
@@ -180,6 +195,17 @@ public:
     {
         consume_whitespace_comments();
         expect_value();
+        while (!nesting.empty() && !remainder.empty()) {
+            switch (nesting.back()) {
+            case Nesting::array_begin:
+            case Nesting::array_next: consume_in_array(); break;
+            case Nesting::object_begin:
+                nesting.back() = Nesting::object_next;
+                consume_member();
+                break;
+            case Nesting::object_next: consume_after_member(); break;
+            }
+        }
         consume_whitespace_comments();
         return true;
     }
@@ -329,24 +355,26 @@ private:
             return false;
         }
         emit_and_advance(1, Highlight_Type::symbol_brace);
+        nesting.push_back(Nesting::object_begin);
+        return true;
+    }
 
-        while (!remainder.empty()) {
-            consume_member();
-            if (remainder.starts_with(u8'}')) {
-                emit_and_advance(1, Highlight_Type::symbol_brace);
-                return true;
-            }
-            if (remainder.starts_with(u8',')) {
-                emit_and_advance(1, Highlight_Type::symbol_punc);
-                continue;
-            }
-            if (!remainder.empty()) {
-                emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
-            }
+    void consume_after_member()
+    {
+        consume_whitespace_comments();
+        if (remainder.starts_with(u8'}')) {
+            emit_and_advance(1, Highlight_Type::symbol_brace);
+            nesting.pop_back();
+            return;
+        }
+        nesting.back() = Nesting::object_begin;
+        if (remainder.starts_with(u8',')) {
+            emit_and_advance(1, Highlight_Type::symbol_punc);
+            return;
+        }
+        if (!remainder.empty()) {
+            emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
         }
-
-        // Unterminated object.
-        return true;
     }
 
     void consume_member()
@@ -373,7 +401,6 @@ private:
             return;
         }
         expect_value();
-        consume_whitespace_comments();
     }
 
     bool expect_array()
@@ -382,27 +409,28 @@ private:
             return false;
         }
         emit_and_advance(1, Highlight_Type::symbol_square);
+        nesting.push_back(Nesting::array_begin);
+        return true;
+    }
 
-        while (!remainder.empty()) {
-            consume_whitespace_comments();
-            if (remainder.starts_with(u8']')) {
-                emit_and_advance(1, Highlight_Type::symbol_square);
-                return true;
-            }
-            if (remainder.starts_with(u8',')) {
-                emit_and_advance(1, Highlight_Type::symbol_punc);
-                continue;
-            }
-            if (expect_value()) {
-                continue;
-            }
-            if (!remainder.empty()) {
-                emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
-            }
+    void consume_in_array()
+    {
+        consume_whitespace_comments();
+        if (remainder.starts_with(u8']')) {
+            emit_and_advance(1, Highlight_Type::symbol_square);
+            nesting.pop_back();
+            return;
+        }
+        if (remainder.starts_with(u8',')) {
+            emit_and_advance(1, Highlight_Type::symbol_punc);
+            return;
+        }
+        if (expect_value()) {
+            return;
+        }
+        if (!remainder.empty()) {
+            emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
         }
-
-        // Unterminated array.
-        return true;
     }
 
     bool expect_true_false_null()
@@ -429,6 +457,10 @@ private:
 
     std::u8string_view remainder;
     Source_Position pos {};
+    /// @brief The objects and arrays that have not been closed yet.
+    /// Nesting is tracked explicitly rather than through recursion,
+    /// so that the required call stack does not depend on the nesting depth.
+    std::vector<Nesting> nesting;
 
 public:
     [[nodiscard]]
@@ -446,6 +478,11 @@ public:
         if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
             return false;
         }
+        while (!nesting.empty()) {
+            if (!consume_in_nesting() || !consume_whitespace_comments()) {
+                return false;
+            }
+        }
         if (!remainder.empty()) {
             error(JSON_Error::illegal_character);
             return false;
@@ -559,10 +596,16 @@ private:
             return consume_string(String_Type::value);
         }
         case u8'[': {
-            return consume_array();
+            out.push_array(pos);
+            nesting.push_back(Nesting::array_begin);
+            advance_on_same_line(1);
+            return true;
         }
         case u8'{': {
-            return consume_object();
+            out.push_object(pos);
+            nesting.push_back(Nesting::object_begin);
+            advance_on_same_line(1);
+            return true;
         }
         case u8'-':
         case u8'0':
@@ -721,56 +764,52 @@ private:
         return true;
     }
 
+    /// @brief Consumes the next part of the innermost object or array,
+    /// which is either its closing bracket,
+    /// or an element or member, including the preceding comma.
+    /// If the value of the element or member is itself an object or array,
+    /// only its opening bracket is consumed.
     [[nodiscard]]
-    bool consume_object()
+    bool consume_in_nesting()
     {
-        if (!remainder.starts_with(u8'{')) {
-            ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"This should have been tested outside.");
-            error(JSON_Error::error);
+        ULIGHT_DEBUG_ASSERT(!nesting.empty());
+        const Nesting state = nesting.back();
+        const bool is_array = state == Nesting::array_begin || state == Nesting::array_next;
+        const bool is_first = state == Nesting::array_begin || state == Nesting::object_begin;
+        const auto unterminated
+            = is_array ? JSON_Error::unterminated_array : JSON_Error::unterminated_object;
+
+        if (remainder.empty()) {
+            error(unterminated);
             return false;
         }
-        out.push_object(pos);
-        advance_on_same_line(1);
-
-        bool first_member = true;
-        while (!remainder.empty()) {
-            if (!consume_whitespace_comments()) {
-                return false;
-            }
-            if (remainder.empty()) {
-                break;
+        if (remainder.starts_with(is_array ? u8']' : u8'}')) {
+            if (is_array) {
+                out.pop_array(pos);
             }
-            if (remainder.starts_with(u8'}')) {
+            else {
                 out.pop_object(pos);
-                advance_on_same_line(1);
-                return true;
             }
-            if (first_member) {
-                if (!consume_member()) {
-                    return false;
-                }
-                first_member = false;
-                continue;
+            advance_on_same_line(1);
+            nesting.pop_back();
+            return true;
+        }
+        if (!is_first) {
+            if (!remainder.starts_with(u8',')) {
+                error(JSON_Error::illegal_character);
+                return false;
             }
-            if (remainder.starts_with(u8',')) {
-                advance_on_same_line(1);
-                if (!consume_whitespace_comments()) {
-                    return false;
-                }
-                if (remainder.empty()) {
-                    break;
-                }
-                if (!consume_member()) {
-                    return false;
-                }
-                continue;
+            advance_on_same_line(1);
+            if (!consume_whitespace_comments()) {
+                return false;
+            }
+            if (remainder.empty()) {
+                error(unterminated);
+                return false;
             }
-            error(JSON_Error::illegal_character);
-            return false;
         }
-
-        error(JSON_Error::unterminated_object);
-        return false;
+        nesting.back() = is_array ? Nesting::array_next : Nesting::object_next;
+        return is_array ? consume_value() : consume_member();
     }
 
     [[nodiscard]]
@@ -806,61 +845,6 @@ private:
         }
         return consume_value();
     }
-
-    [[nodiscard]]
-    bool consume_array()
-    {
-        if (!remainder.starts_with(u8'[')) {
-            ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"This should have been tested outside.");
-            error(JSON_Error::error);
-            return false;
-        }
-        out.push_array(pos);
-        advance_on_same_line(1);
-        if (!consume_whitespace_comments()) {
-            return false;
-        }
-
-        bool first_element = true;
-        while (!remainder.empty()) {
-            if (!consume_whitespace_comments()) {
-                return false;
-            }
-            if (remainder.empty()) {
-                break;
-            }
-            if (remainder.starts_with(u8']')) {
-                out.pop_array(pos);
-                advance_on_same_line(1);
-                return true;
-            }
-            if (first_element) {
-                if (!consume_value()) {
-                    return false;
-                }
-                first_element = false;
-                continue;
-            }
-            if (remainder.starts_with(u8',')) {
-                advance_on_same_line(1);
-                if (!consume_whitespace_comments()) {
-                    return false;
-                }
-                if (remainder.empty()) {
-                    break;
-                }
-                if (!consume_value()) {
-                    return false;
-                }
-                continue;
-            }
-            error(JSON_Error::illegal_character);
-            return false;
-        }
-
-        error(JSON_Error::unterminated_array);
-        return false;
-    }
 };
 
 } // namespace
-- 
2.43.0


From fa91feb9e9982e3a8190e3d6061bb95e4435b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 129/173] fix: io: do not close files twice

---
 include/ulight/impl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index b0c7792..3bfed25 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -72,7 +72,7 @@ public:
     void close() noexcept
     {
         if (m_file) {
-            std::fclose(m_file);
+            std::fclose(std::exchange(m_file, nullptr));
         }
     }
 
-- 
2.43.0


From 56a5cc6c1bed937a4b78baeec4bf1f81c890dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 130/173] fix: io: paths have to fit into the buffer, including
 the null terminator

---
 src/main/cpp/io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 1101513..df5024a 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,8 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() > block_size) {
+    // The path also has to be null-terminated.
+    if (path.size() >= block_size) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From 8fe4fd233a0a168919746aa5367b975761452e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 131/173] fix: cli: report failure through the exit status

---
 src/main/cpp/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index d022e38..61fdcba 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <cstdlib>
 #include <expected>
 #include <iostream>
@@ -65,6 +66,11 @@ int main(int argc, const char** argv)
     Status status = state.source_to_html();
     if (status != Status::ok) {
         std::cerr << "Error: " << state.get_error_string() << '\n';
+        return EXIT_FAILURE;
+    }
+    if (std::fflush(out_file) != 0 || std::ferror(out_file)) {
+        std::cerr << "Error: failed to write output.\n";
+        return EXIT_FAILURE;
     }
 
     return 0;
-- 
2.43.0


From f869f9737e05f0c0b9aadaebe643f7c272e92b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 132/173] fix: diff: empty ranges in hunk headers start at the
 preceding line

---
 include/ulight/impl/string_diff.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/string_diff.hpp b/include/ulight/impl/string_diff.hpp
index e2cd6af..6e1ada2 100644
--- a/include/ulight/impl/string_diff.hpp
+++ b/include/ulight/impl/string_diff.hpp
@@ -235,10 +235,11 @@ inline void print_diff(
 
     // Print each hunk with a unidiff @@ header followed by its lines.
     for (const Hunk& hunk : hunks) {
-        const std::size_t from_start = from_prefix[hunk.begin] + 1;
+        // A range of zero lines starts at the line that precedes it.
         const std::size_t from_count = from_prefix[hunk.end] - from_prefix[hunk.begin];
-        const std::size_t to_start = to_prefix[hunk.begin] + 1;
+        const std::size_t from_start = from_prefix[hunk.begin] + (from_count != 0);
         const std::size_t to_count = to_prefix[hunk.end] - to_prefix[hunk.begin];
+        const std::size_t to_start = to_prefix[hunk.begin] + (to_count != 0);
 
         if (use_color) {
             out << ansi::h_cyan;
-- 
2.43.0


From 13b7e6e64642a53fe01554c40ee3d5883422902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 133/173] fix: buffer: convert elements when appending a range
 of another type

---
 include/ulight/impl/algorithm/copy.hpp | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/ulight/impl/algorithm/copy.hpp b/include/ulight/impl/algorithm/copy.hpp
index e7badbe..e15f9ec 100644
--- a/include/ulight/impl/algorithm/copy.hpp
+++ b/include/ulight/impl/algorithm/copy.hpp
@@ -3,6 +3,7 @@
 
 #include <cstring>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 
 #include "ulight/impl/platform.h"
@@ -17,25 +18,24 @@ concept bitwise_convertible_to = //
     sizeof(T) == sizeof(U) //
     && std::is_trivially_copyable_v<T> //
     && std::is_trivially_copyable_v<U>
-    && (std::is_same_v<T, U> || (std::is_integral_v<T> && std::is_integral_v<U>));
+    && (std::is_same_v<T, U>
+        || (std::is_integral_v<T> && std::is_integral_v<U> && !std::is_same_v<U, bool>));
 
 template <typename Iter, typename Out>
 constexpr void copy(Iter begin, Iter end, Out dest)
 {
-    using Iter_Element = std::iter_value_t<Iter>;
-    using Out_Element = std::iter_value_t<Iter>;
-
-    constexpr bool can_memmove //
-        = std::contiguous_iterator<Iter> //
-        && std::contiguous_iterator<Out> //
-        && bitwise_convertible_to<Iter_Element, Out_Element>;
-
-    if constexpr (can_memmove) {
-        if !consteval {
-            const auto count
-                = std::size_t(std::addressof(*end) - std::addressof(*begin)) * sizeof(Iter_Element);
-            std::memmove(std::addressof(*dest), std::addressof(*begin), count);
-            return;
+    if constexpr (std::contiguous_iterator<Iter> && std::contiguous_iterator<Out>) {
+        using Iter_Element = std::iter_value_t<Iter>;
+        using Out_Element = std::iter_value_t<Out>;
+
+        if constexpr (bitwise_convertible_to<Iter_Element, Out_Element>) {
+            if !consteval {
+                const auto count = std::size_t(end - begin) * sizeof(Iter_Element);
+                if (count != 0) {
+                    std::memmove(std::to_address(dest), std::to_address(begin), count);
+                }
+                return;
+            }
         }
     }
     while (begin != end) {
-- 
2.43.0


From 042b15709977a74fa9c4206408c69ba3f47d98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 134/173] fix: io: do not pass null pointers to memcpy for
 empty files

---
 include/ulight/impl/io.hpp | 3 +++
 src/main/cpp/io.cpp        | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index 3bfed25..85d417c 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -134,6 +134,9 @@ file_to_bytes(std::vector<Byte, Alloc>& out, std::string_view path)
 {
     return file_to_bytes_chunked(
         [&out](std::span<const std::byte> chunk) -> void {
+            if (chunk.empty()) {
+                return;
+            }
             const std::size_t old_size = out.size();
             out.resize(out.size() + chunk.size());
             std::memcpy(out.data() + old_size, chunk.data(), chunk.size());
diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index df5024a..e079a0a 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -87,7 +87,9 @@ std::expected<std::vector<char32_t>, IO_Error_Code> load_utf32le_file(std::strin
     // We could make this code more portable in the long run, but I don't care for now.
     static_assert(std::endian::native == std::endian::little);
     std::vector<char32_t> result(bytes.size() / 4);
-    std::memcpy(result.data(), bytes.data(), bytes.size());
+    if (!bytes.empty()) {
+        std::memcpy(result.data(), bytes.data(), bytes.size());
+    }
 
     return result;
 }
-- 
2.43.0


From 0d6dc0a2c6040db267e3157daff7c2a382d4e98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 135/173] fix: markdown: backticks that open no code span do
 not prevent emphasis

---
 src/main/cpp/lang/markdown.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 84e315b..3bc1e6b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -1010,28 +1010,16 @@ private:
             const char8_t ch = remainder[i];
 
             if (ch == u8'`') {
-                // Skip over a code span so emphasis can't start inside one.
-                std::size_t bt = 0;
-                while (i < avail && remainder[i] == u8'`') {
-                    ++bt;
-                    ++i;
+                // Skip over a code span so emphasis can't end inside one.
+                if (const auto span = match_code_span(remainder.substr(i, avail - i));
+                    span.length != 0) {
+                    i += span.length;
                 }
-                // Scan for the matching closing backtick run.
-                bool found_close = false;
-                while (i < avail && !found_close) {
-                    while (i < avail && remainder[i] != u8'`') {
-                        ++i;
-                    }
-                    std::size_t cbt = 0;
+                else {
                     while (i < avail && remainder[i] == u8'`') {
-                        ++cbt;
                         ++i;
                     }
-                    if (cbt == bt) {
-                        found_close = true;
-                    }
                 }
-                // If no matching close was found, i is now at avail — outer loop ends.
             }
             else if (ch == c) {
                 const std::size_t close_start = i;
-- 
2.43.0


From c0413e2fa4116e4524237804e20ca1d813c4c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 136/173] fix: markdown: escaped delimiters do not end emphasis

---
 src/main/cpp/lang/markdown.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 3bc1e6b..8c6750b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -1021,6 +1021,13 @@ private:
                     }
                 }
             }
+            else if (ch == u8'\\' && i + 1 < avail && is_md_ascii_punctuation(remainder[i + 1])) {
+                // Escaped delimiters (and what is attached to them) do not end emphasis.
+                i += 2;
+                while (remainder[i - 1] == c && i < avail && remainder[i] == c) {
+                    ++i;
+                }
+            }
             else if (ch == c) {
                 const std::size_t close_start = i;
                 std::size_t close_run = 0;
-- 
2.43.0


From 1381c2ad632b03c1a7361326af801f3c733c6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 137/173] fix: markdown: emphasis and link text do not end
 inside of comments

---
 src/main/cpp/lang/markdown.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 8c6750b..ff7552d 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -865,6 +865,14 @@ private:
             if (remainder[i] == u8'\\' && i + 1 < avail) {
                 i += 2;
             }
+            else if (remainder[i] == u8'<') {
+                // Skip over a comment so link text can't end inside one.
+                const auto comment = html::match_comment(remainder.substr(i, avail - i));
+                if (comment && !comment.terminated) {
+                    return avail;
+                }
+                i += comment ? comment.length : 1;
+            }
             else if (remainder[i] == u8'[') {
                 ++depth;
                 ++i;
@@ -1021,6 +1029,14 @@ private:
                     }
                 }
             }
+            else if (ch == u8'<') {
+                // Skip over a comment so emphasis can't end inside one.
+                const auto comment = html::match_comment(remainder.substr(i, avail - i));
+                if (comment && !comment.terminated) {
+                    return false;
+                }
+                i += comment ? comment.length : 1;
+            }
             else if (ch == u8'\\' && i + 1 < avail && is_md_ascii_punctuation(remainder[i + 1])) {
                 // Escaped delimiters (and what is attached to them) do not end emphasis.
                 i += 2;
-- 
2.43.0


From 9aad344825a1d04879094b340f80fd488c91f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 138/173] fix: markdown: link titles can contain closing
 parentheses

---
 src/main/cpp/lang/markdown.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index ff7552d..2723d69 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -209,7 +209,19 @@ std::size_t find_link_url_end(const std::u8string_view str, const std::size_t st
 std::size_t find_link_close(const std::u8string_view str, const std::size_t start)
 {
     std::size_t i = start;
-    // Skip optional whitespace and title before ')'.
+    while (i < str.length() && is_md_whitespace(str[i])) {
+        ++i;
+    }
+    // Skip optional title before ')', which may itself contain ')'.
+    if (i != start && i < str.length() && (str[i] == u8'"' || str[i] == u8'\'')) {
+        std::size_t title_end = i + 1;
+        while (title_end < str.length() && str[title_end] != str[i]) {
+            title_end += str[title_end] == u8'\\' ? 2 : 1;
+        }
+        if (title_end < str.length()) {
+            i = title_end + 1;
+        }
+    }
     while (i < str.length() && str[i] != u8')') {
         ++i;
     }
-- 
2.43.0


From 7997fe1be4a1106acdac2c670bd819092d52bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 139/173] fix: markdown: runs of underscores within words do
 not open emphasis

---
 src/main/cpp/lang/markdown.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 2723d69..fd17c9d 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -763,7 +763,16 @@ private:
             }
             case u8'*':
             case u8'_': {
-                if (!expect_emphasis(avail, prev_char)) {
+                if (c == u8'_' && is_ascii_alphanumeric(prev_char)) {
+                    // Underscores within words are literal, however many there are.
+                    std::size_t run = 1;
+                    while (run < avail && remainder[run] == c) {
+                        ++run;
+                    }
+                    prev_char = c;
+                    advance(run);
+                }
+                else if (!expect_emphasis(avail, prev_char)) {
                     prev_char = c;
                     advance(1);
                 }
-- 
2.43.0


From 6b1ed2ac9a349f22dc4e6aacb0b9e5585aa5b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 140/173] fix: cowel: trailing whitespace does not extend
 expression line splices

---
 src/main/cpp/lang/cowel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index c6725d4..a9f44e0 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -456,7 +456,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 continue;
             }
 
-            const std::size_t whitespace = match_whitespace(remainder);
+            // Line terminators end the splice, so they are not skipped.
+            const std::size_t whitespace = ascii::length_if(remainder, is_horizontal_whitespace);
             if (whitespace) {
                 advance(whitespace);
                 continue;
-- 
2.43.0


From 4003586e23e9786360c06369fac848abebb806e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 141/173] fix: cowel: backslashes which begin nothing do not
 end highlighting

---
 src/main/cpp/lang/cowel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index a9f44e0..a2389fe 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -379,7 +379,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
 
         for (; plain_length < remainder.length(); ++plain_length) {
             const char8_t c = remainder[plain_length];
-            if (c == u8'\\') {
+            // A leading backslash which has not been matched as anything else is plain text.
+            if (c == u8'\\' && plain_length != 0) {
                 goto done;
             }
             switch (text_kind) {
-- 
2.43.0


From 1836fa56397c1ac23e0e59de359a4e4f47537554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 142/173] fix: cowel: directive calls in expression line
 splices end with the line

---
 src/main/cpp/lang/cowel.cpp | 40 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index a2389fe..0bfe433 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -208,11 +208,12 @@ std::size_t match_reserved_number(const std::u8string_view str)
     return length;
 }
 
-std::size_t match_blank(const std::u8string_view str)
+[[nodiscard]]
+static std::size_t match_blank(const std::u8string_view str, const Charset256 whitespace)
 {
     std::size_t length = 0;
     while (length < str.length()) {
-        if (const std::size_t space = match_whitespace(str.substr(length))) {
+        if (const std::size_t space = ascii::length_if(str.substr(length), whitespace)) {
             length += space;
             continue;
         }
@@ -229,6 +230,11 @@ std::size_t match_blank(const std::u8string_view str)
     return length;
 }
 
+std::size_t match_blank(const std::u8string_view str)
+{
+    return match_blank(str, html::is_html_whitespace);
+}
+
 [[nodiscard]]
 std::size_t match_quoted_member_name(const std::u8string_view str)
 {
@@ -453,7 +459,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
             }
 
             if (expect_escape() || expect_line_comment() || expect_block_comment()
-                || expect_expression()) {
+                || expect_expression(is_horizontal_whitespace)) {
                 continue;
             }
 
@@ -692,9 +698,11 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
         return false;
     }
 
-    bool expect_expression()
+    /// @param call_whitespace The whitespace characters which can appear
+    /// between the parts of a directive call.
+    bool expect_expression(const Charset256 call_whitespace = html::is_html_whitespace)
     {
-        return expect_directive_call() || expect_primary_value();
+        return expect_directive_call(call_whitespace) || expect_primary_value();
     }
 
     bool expect_ellipsis()
@@ -707,13 +715,14 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
         return false;
     }
 
-    bool expect_directive_call()
+    bool expect_directive_call(const Charset256 whitespace)
     {
         const std::size_t name_length = match_identifier(remainder);
         if (name_length == 0) {
             return false;
         }
-        const std::size_t blank_after_name = match_blank(remainder.substr(name_length));
+        const std::size_t blank_after_name
+            = match_blank(remainder.substr(name_length), whitespace);
         if (name_length + blank_after_name >= remainder.length()) {
             return false;
         }
@@ -722,9 +731,9 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
             return false;
         }
         emit_and_advance(name_length, Highlight_Type::markup_tag);
-        consume_blank();
+        consume_blank(whitespace);
         expect_group();
-        consume_blank();
+        consume_blank(whitespace);
         expect_block();
         return true;
     }
@@ -843,10 +852,10 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
         return true;
     }
 
-    void consume_blank()
+    void consume_blank(const Charset256 whitespace = html::is_html_whitespace)
     {
         while (!eof()) {
-            if (const std::size_t space = match_whitespace(remainder)) {
+            if (const std::size_t space = ascii::length_if(remainder, whitespace)) {
                 advance(space);
             }
             if (!expect_line_comment() && !expect_block_comment()) {
@@ -861,14 +870,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
     /// without crossing the expression-line-splice boundary.
     void consume_horizontal_blank()
     {
-        while (!eof()) {
-            if (const std::size_t space = ascii::length_if(remainder, is_horizontal_whitespace)) {
-                advance(space);
-            }
-            if (!expect_line_comment() && !expect_block_comment()) {
-                break;
-            }
-        }
+        consume_blank(is_horizontal_whitespace);
     }
 
     void highlight_line_comment(const std::size_t c)
-- 
2.43.0


From 92e35bde744d5b8a5d272c5625e36cd8a61ba68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 143/173] fix: ebnf: form feeds are whitespace

---
 src/main/cpp/lang/ebnf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/ebnf.cpp b/src/main/cpp/lang/ebnf.cpp
index 0034fe1..ae58c4e 100644
--- a/src/main/cpp/lang/ebnf.cpp
+++ b/src/main/cpp/lang/ebnf.cpp
@@ -118,7 +118,8 @@ public:
             case u8'\t':
             case u8'\r':
             case u8'\n':
-            case u8'\v': {
+            case u8'\v':
+            case u8'\f': {
                 advance(1);
                 break;
             }
-- 
2.43.0


From edd16996a26024bfa495504b2060057620b4d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 144/173] fix: highlight the contents of an unterminated
 backquoted NASM string at the end

---
 src/main/cpp/lang/nasm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index e400ea1..d61dc4c 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -673,6 +673,8 @@ private:
             }
             }
         }
+        // Unterminated string.
+        flush();
     }
 
     bool expect_escape()
-- 
2.43.0


From c289be279db9084eb20d7123233ec17d3bbcf100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 145/173] fix: highlight parameter-entity references within XML
 declarations

---
 src/main/cpp/lang/xml.cpp | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 3145fa7..d51222b 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -189,16 +189,12 @@ std::size_t match_entity_reference(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_pe_reference(const std::u8string_view str)
 {
-
-    if (!str.starts_with(u8'&')) {
+    if (!str.starts_with(u8'%')) {
         return 0;
     }
-
-    const std::size_t result = str.find(u8';', 1);
-    const std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
-    return success ? result + 1 : 0;
+    const std::size_t name_length = match_name(str.substr(1));
+    const bool success = name_length != 0 && str.substr(1 + name_length).starts_with(u8';');
+    return success ? name_length + 2 : 0;
 }
 
 namespace {
@@ -298,13 +294,14 @@ private:
         expect_name(Highlight_Type::name_macro, after_markup_decl_name);
         expect_whitespace();
 
-        // for entity declarations there could be an extra '%'
-        if (remainder.starts_with(u8'%')) {
-            emit_and_advance(1, Highlight_Type::symbol_punc);
-            expect_whitespace();
+        if (!expect_parameter_entity_reference()) {
+            // for entity declarations there could be an extra '%'
+            if (remainder.starts_with(u8'%')) {
+                emit_and_advance(1, Highlight_Type::symbol_punc);
+                expect_whitespace();
+            }
+            expect_name(Highlight_Type::name, after_markup_decl_name);
         }
-
-        expect_name(Highlight_Type::name, after_markup_decl_name);
         expect_whitespace();
 
         while (!remainder.starts_with(u8'>') && !remainder.empty()) {
@@ -321,8 +318,8 @@ private:
             else if (const std::size_t pcdata_decl_len = match_pcdata_decl(remainder)) {
                 emit_and_advance(pcdata_decl_len, Highlight_Type::keyword);
             }
-            else if (const std::size_t pe_ref_len = match_pe_reference(remainder)) {
-                emit_and_advance(pe_ref_len, Highlight_Type::string_escape);
+            else if (expect_parameter_entity_reference()) {
+                // The reference may stand for any part of the declaration.
             }
             else if (const std::size_t name_len = match_name(remainder)) {
                 const bool is_keyword = match_external_id_type(remainder) == name_len
@@ -350,14 +347,11 @@ private:
     bool expect_parameter_entity_reference()
     {
         // https://www.w3.org/TR/xml/#NT-PEReference
-        if (!remainder.starts_with(u8'%')) {
-            return false;
-        }
-        const std::size_t name_length = match_name(remainder.substr(1));
-        if (name_length == 0 || !remainder.substr(1 + name_length).starts_with(u8';')) {
+        const std::size_t length = match_pe_reference(remainder);
+        if (length == 0) {
             return false;
         }
-        emit_and_advance(name_length + 2, Highlight_Type::string_escape);
+        emit_and_advance(length, Highlight_Type::string_escape);
         return true;
     }
 
-- 
2.43.0


From f77c651b1eca95b3be2dcbe54096985bafc4c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 146/173] fix: highlight collections and block scalars in
 explicit keys and values of YAML mappings

---
 src/main/cpp/lang/yaml.cpp | 51 +++++++++++---------------------------
 1 file changed, 15 insertions(+), 36 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index d32ef6b..5fe30e4 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -277,6 +277,17 @@ private:
         return match_document_marker(remainder) && is_separator(remainder.substr(3));
     }
 
+    /// @brief Returns `true` iff the remainder starts with one of the indicators
+    /// of block sequence entries and of explicit keys and values of block mappings.
+    [[nodiscard]]
+    bool starts_with_block_indicator() const
+    {
+        // https://yaml.org/spec/1.2.2/#rule-c-l-block-map-explicit-key
+        return (remainder.starts_with(u8'-') || remainder.starts_with(u8'?')
+                || remainder.starts_with(u8':'))
+            && is_separator(remainder.substr(1));
+    }
+
     /// @brief Consume the `---` at the start of a document, and any content on the same line.
     void consume_document_start()
     {
@@ -538,41 +549,16 @@ private:
             // Consume the indentation (no highlighting).
             consume_indent(line_indent);
 
-            // Handle explicit mapping key: ? key
-            if (remainder.starts_with(u8"? ") || //
-                (remainder.starts_with(u8"?") && remainder.length() > 1
-                 && match_line_break(remainder.substr(1)))) {
-                emit_and_advance(1, Highlight_Type::symbol_punc);
-                consume_whitespace_and_comments();
-                bool is_block_scalar = false;
-                if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    is_block_scalar = consume_flow_node(line_indent + 1);
-                }
-                if (!is_block_scalar) {
-                    skip_line();
-                }
-                // Expect : value on next line(s)
-                consume_whitespace_and_comments();
-                if (!remainder.empty() && remainder.starts_with(u8": ")) {
-                    consume_indent(line_indent);
-                    emit_and_advance(1, Highlight_Type::symbol_punc);
-                    consume_whitespace_and_comments();
-                    if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
-                        skip_line();
-                    }
-                }
-                continue;
-            }
-
             // Handle block sequence entry: - item
-            if (remainder.starts_with(u8"- ")) {
+            // as well as explicit mapping key and value: ? key, : value
+            if (starts_with_block_indicator()) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 const std::size_t space = ascii::length_if(remainder, is_yaml_whitespace);
                 advance(space);
 
-                // Compact sequence: another "-" on the same line
+                // Compact collection: another indicator on the same line
                 // The entry is consumed in the next iteration.
-                if (remainder.starts_with(u8'-') && is_separator(remainder.substr(1))) {
+                if (starts_with_block_indicator()) {
                     column = line_indent + 1 + space;
                     continue;
                 }
@@ -591,13 +577,6 @@ private:
                 continue;
             }
 
-            // Handle block sequence entry whose item is on the following lines.
-            if (remainder.starts_with(u8'-') && is_separator(remainder.substr(1))) {
-                emit_and_advance(1, Highlight_Type::symbol_punc);
-                skip_line();
-                continue;
-            }
-
             // Handle block scalar: | or > as a standalone block entry.
             const bool is_block_scalar_header = remainder.starts_with(u8"| ")
                 || remainder.starts_with(u8"> ")
-- 
2.43.0


From 429d09a00ebb08f13805f8edf4d17b2816fafc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 147/173] fix: report failed allocations as such in the
 JavaScript interface

---
 www/js/ulight.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 7b2ea7d..fff23c4 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -57,9 +57,8 @@ export class UlightWasm {
      * @returns {number} The numeric ID. The special value `0` represents no valid language.
      */
     getLanguageId(name) {
-        let u8string;
+        const u8string = this._allocUtf8(name);
         try {
-            u8string = this._allocUtf8(name);
             return this._exports.ulight_get_lang(u8string.address, u8string.size);
         } finally {
             this._freeUtf8(u8string);
@@ -209,7 +208,7 @@ export class UlightWasm {
     _alloc(size, alignment) {
         const result = this._exports.ulight_alloc(size, alignment);
         if (result === 0) {
-            throw new Error(`Allocation failure in WASM with: bytes=${bytes}, align=${alignment}`);
+            throw new Error(`Allocation failure in WASM with: bytes=${size}, align=${alignment}`);
         }
         return result;
     }
-- 
2.43.0


From 90b9c2602daa0bd291e42eef440eefa06e346484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 148/173] fix: keep byte order marks in text passed through the
 JavaScript interface

---
 www/js/ulight.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index fff23c4..492b7fd 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -162,7 +162,7 @@ export class UlightWasm {
      */
     _loadUtf8(address, length) {
         const utf8Bytes = this._heap8.slice(address, address + length);
-        const decoder = new TextDecoder("utf-8", { fatal: true });
+        const decoder = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
         return decoder.decode(utf8Bytes);
     }
 
-- 
2.43.0


From 883f5be439ebe08fc2dacec95327b060b04a74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 149/173] fix: highlight text whose HTML is flushed within a
 code point in the JavaScript interface

---
 www/js/ulight.js | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 492b7fd..1749924 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -100,6 +100,8 @@ export class UlightWasm {
         const sourceData = typeof (source) === "string" ? new TextEncoder().encode(source) : source;
 
         this._bufferedText = "";
+        // A flush may end within a code point, which then continues in the next one.
+        this._textDecoder = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
 
         let u8source = 0;
         let tokenBuffer = 0;
@@ -137,7 +139,7 @@ export class UlightWasm {
                 console.error(`ulight_source_to_html failed with status ${result}:`, error);
                 throw result;
             }
-            return this._bufferedText;
+            return this._bufferedText + this._textDecoder.decode();
         } finally {
             if (state) {
                 this._deleteState(state);
@@ -260,8 +262,8 @@ export class UlightWasm {
         }
 
         const flushTextFunction = (_, textAddress, textLength) => {
-            const str = this._loadUtf8(textAddress, textLength);
-            this._bufferedText += str;
+            const utf8Bytes = this._heap8.slice(textAddress, textAddress + textLength);
+            this._bufferedText += this._textDecoder.decode(utf8Bytes, { stream: true });
         };
         const flushTextModule = await fetchBytes('f_i32_i32_i32_to_void.wasm')
             .then(bytes => WebAssembly.compile(bytes));
-- 
2.43.0


From bbe1c6de80ad4175549e69dc424c33cdaf4d7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 150/173] fix: accept the highlight type "text" in themes

---
 scripts/theme-to-css.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 3afd2c1..4fca6ed 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -112,7 +112,7 @@ const longNameToShort = {
     "markup-attr-decl": "mk_attr_decl",
     "markup-attr-builtin": "mk_attr_pre",
     "markup-attr-delim": "mk_attr_dlim",
-    "text-emph": "text",
+    "text": "text",
     "text-heading": "text_head",
     "text-link": "text_link",
     "text-mark": "text_mark",
-- 
2.43.0


From de6157bd1c4ef5e41b7bb7465f706bc149b9630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 151/173] fix: apply -B, -F, and --no-foreground when
 generating CSS from themes

---
 scripts/theme-to-css.cjs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 4fca6ed..a486350 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -363,6 +363,8 @@ function fileToCss(path, isThemed, noBlockBackground, noBlockForeground, isCowel
 
 function main() {
     const argv = yargs
+        // The options whose names begin with "no-" are options of their own.
+        .parserConfiguration({ "boolean-negation": false })
         .option("input", {
             alias: "i",
             describe: "Input file/directory",
@@ -398,8 +400,8 @@ function main() {
         .argv;
 
     const isThemed = argv.themed ?? false;
-    const noBlockBackground = !(argv.blockBackground ?? true);
-    const noBlockForeground = !(argv.blockForeground ?? true);
+    const noBlockBackground = argv.noBlockBackground ?? false;
+    const noBlockForeground = argv.noForeground ?? false;
     const isCowel = argv.cowel ?? false;
 
     const inputStats = fs.lstatSync(argv.input);
-- 
2.43.0


From 0ec6808578c46863ee22522265c76a59df6f09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 152/173] fix: begin the short names of all highlight types
 with those of their parents

---
 include/ulight/ulight.hpp | 6 +++---
 scripts/theme-to-css.cjs  | 6 +++---
 www/css/theme.css         | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index 8eaace5..c95c2e8 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -205,9 +205,9 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name_instruction, "name-instruction", "name_inst", ULIGHT_HL_NAME_INSTRUCTION)               \
     F(name_instruction_decl, "name-instruction-decl", "name_inst_decl",                            \
       ULIGHT_HL_NAME_INSTRUCTION_DECL)                                                             \
-    F(name_instruction_pseudo, "name-instruction-pseudo", "asm_inst_pre",                          \
+    F(name_instruction_pseudo, "name-instruction-pseudo", "name_inst_pre",                          \
       ULIGHT_HL_NAME_INSTRUCTION_PSEUDO)                                                           \
-    F(name_instruction_delim, "name-instruction-delim", "asm_inst_dlim",                           \
+    F(name_instruction_delim, "name-instruction-delim", "name_inst_dlim",                           \
       ULIGHT_HL_NAME_INSTRUCTION_DELIM)                                                            \
                                                                                                    \
     F(name_attr, "name-attr", "name_attr", ULIGHT_HL_NAME_ATTR)                                    \
@@ -218,7 +218,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name_shell_command, "name-command", "name_cmd", ULIGHT_HL_NAME_SHELL_COMMAND)                \
     F(name_shell_command_decl, "name-command-decl", "name_cmd_decl",                               \
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
-    F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
+    F(name_shell_command_builtin, "name-command-builtin", "name_cmd_pre",                           \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
     F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                                  \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index a486350..7f1338f 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -65,15 +65,15 @@ const longNameToShort = {
     "name-lifetime-delim": "name_life_dlim",
     "name-instruction": "name_inst",
     "name-instruction-decl": "name_inst_decl",
-    "name-instruction-pseudo": "asm_inst_pre",
-    "name-instruction-delim": "asm_inst_dlim",
+    "name-instruction-pseudo": "name_inst_pre",
+    "name-instruction-delim": "name_inst_dlim",
     "name-attr": "name_attr",
     "name-attr-decl": "name_attr_decl",
     "name-attr-builtin": "name_attr_pre",
     "name-attr-delim": "name_attr_dlim",
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
-    "name-command-builtin": "sh_cmd_pre",
+    "name-command-builtin": "name_cmd_pre",
     "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
diff --git a/www/css/theme.css b/www/css/theme.css
index 70d6221..ef43546 100644
--- a/www/css/theme.css
+++ b/www/css/theme.css
@@ -454,7 +454,7 @@
 [data-ulight-theme=light-ulight] h-[data-h^=name_inst] {
     color: #c80032;
 }
-[data-ulight-theme=light-ulight] h-[data-h^=asm_inst_pre] {
+[data-ulight-theme=light-ulight] h-[data-h^=name_inst_pre] {
     color: #94b500;
 }
 [data-ulight-theme=light-ulight] h-[data-h^=name_mac] {
@@ -620,7 +620,7 @@
 [data-ulight-theme=dark-ulight] h-[data-h^=name_inst] {
     color: #ff5a82;
 }
-[data-ulight-theme=dark-ulight] h-[data-h^=asm_inst_pre] {
+[data-ulight-theme=dark-ulight] h-[data-h^=name_inst_pre] {
     color: #edc385;
 }
 [data-ulight-theme=dark-ulight] h-[data-h^=name_mac] {
@@ -1052,7 +1052,7 @@
 [data-ulight-theme=light-wg21] h-[data-h^=name_inst] {
     color: #00607c;
 }
-[data-ulight-theme=light-wg21] h-[data-h^=asm_inst_pre] {
+[data-ulight-theme=light-wg21] h-[data-h^=name_inst_pre] {
     color: #9f6807;
 }
 [data-ulight-theme=light-wg21] h-[data-h^=name_labl] {
@@ -1216,7 +1216,7 @@
 [data-ulight-theme=dark-wg21] h-[data-h^=name_inst] {
     color: #62ded6;
 }
-[data-ulight-theme=dark-wg21] h-[data-h^=asm_inst_pre] {
+[data-ulight-theme=dark-wg21] h-[data-h^=name_inst_pre] {
     color: #e6aee6;
 }
 [data-ulight-theme=dark-wg21] h-[data-h^=name_labl] {
-- 
2.43.0


From 997cf9e7dd13b633ac0f9a4a8def2dda093e93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 153/173] fix: reject themes that style a highlight type named
 like an inherited property

---
 scripts/theme-to-css.cjs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 7f1338f..6fb686a 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -270,12 +270,12 @@ function keyToCssSelector(path, key, themePrefix) {
             : `${themePrefix}.ulight-code-block, ${themePrefix} .ulight-code-block`;
     }
 
-    const shortName = longNameToShort[key];
-    if (shortName === undefined) {
+    if (!Object.hasOwn(longNameToShort, key)) {
         console.error(`${path}: Invalid highlight type "${key}"`);
         process.exit(1);
     }
 
+    const shortName = longNameToShort[key];
     const fullPrefix = themePrefix.length === 0 ? "" : themePrefix + " ";
     return `${fullPrefix}h-[data-h^=${shortName}]`;
 }
-- 
2.43.0


From 536015f3c83ffc6bdaf128caa0675c59b9164a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 154/173] fix: unindent lines of spaces at the end of the text
 in the live editor

---
 www/js/live_edit.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/www/js/live_edit.js b/www/js/live_edit.js
index 2564c35..6e66e1e 100644
--- a/www/js/live_edit.js
+++ b/www/js/live_edit.js
@@ -165,7 +165,7 @@ codeInput.addEventListener('keydown', (e) => {
         const beforeLineStart = codeInput.value.lastIndexOf('\n', Math.max(0, start - 1));
         if (e.shiftKey) {
             const firstNonIndent = codeInput.value.indexNotOf(' ', beforeLineStart + 1);
-            let indentEnd = firstNonIndent < 0 ? start : firstNonIndent;
+            const indentEnd = firstNonIndent < 0 ? codeInput.value.length : firstNonIndent;
             const currentIndentLength
                 = indentEnd - (beforeLineStart + 1);
             if (currentIndentLength === 0) {
-- 
2.43.0


From 9a194fbf323af350bcaf463e007f6a048572adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 155/173] fix: keep the cursor in its line when unindenting in
 the live editor

---
 www/js/live_edit.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/www/js/live_edit.js b/www/js/live_edit.js
index 6e66e1e..e215550 100644
--- a/www/js/live_edit.js
+++ b/www/js/live_edit.js
@@ -173,7 +173,11 @@ codeInput.addEventListener('keydown', (e) => {
             }
             const removalSize = Math.min(currentIndentLength, indent.length);
             codeInput.value = codeInput.value.removeAt(removalSize, beforeLineStart + 1);
-            codeInput.setSelectionRange(start - removalSize, end - removalSize);
+            const lineStart = beforeLineStart + 1;
+            codeInput.setSelectionRange(
+                Math.max(lineStart, start - removalSize),
+                Math.max(lineStart, end - removalSize)
+            );
         } else {
             // this is actually correct even if '\n' couldn't be found and -1 is returned
             codeInput.value = codeInput.value.insertAt(indent, beforeLineStart + 1);
-- 
2.43.0


From 7888788bff3fca794b011aea6a4249d6c317abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 156/173] fix: take the line of the cursor at the very
 beginning of the text in the live editor

---
 www/js/live_edit.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/www/js/live_edit.js b/www/js/live_edit.js
index e215550..df74db3 100644
--- a/www/js/live_edit.js
+++ b/www/js/live_edit.js
@@ -162,7 +162,7 @@ codeInput.addEventListener('keydown', (e) => {
         const start = codeInput.selectionStart;
         const end = codeInput.selectionEnd;
 
-        const beforeLineStart = codeInput.value.lastIndexOf('\n', Math.max(0, start - 1));
+        const beforeLineStart = start === 0 ? -1 : codeInput.value.lastIndexOf('\n', start - 1);
         if (e.shiftKey) {
             const firstNonIndent = codeInput.value.indexNotOf(' ', beforeLineStart + 1);
             const indentEnd = firstNonIndent < 0 ? codeInput.value.length : firstNonIndent;
@@ -196,12 +196,12 @@ codeInput.addEventListener('keydown', (e) => {
         }
 
         e.preventDefault();
-        const beforeLineStart = codeInput.value.lastIndexOf('\n', Math.max(0, start - 1));
+        const beforeLineStart = start === 0 ? -1 : codeInput.value.lastIndexOf('\n', start - 1);
         const firstNonIndent = codeInput.value.indexNotOf(' \t', beforeLineStart + 1);
         const indentEnd = firstNonIndent < 0 ? start : firstNonIndent;
         const currentIndent = codeInput.value.substring(beforeLineStart + 1, indentEnd);
 
-        const previousNonWhitespace = codeInput.value.lastIndexNotOf(' \t\r', Math.max(0, start - 1));
+        const previousNonWhitespace = codeInput.value.lastIndexNotOf(' \t\r', start - 1);
         const newScopeIndent = previousNonWhitespace !== -1 && codeInput.value[previousNonWhitespace] === '{'
             ? indent : '';
 
-- 
2.43.0


From c4477b1099aff9f02ac6099bc5de3cc208db99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 157/173] fix: highlight deeply nested Bash substitutions and
 subshells without recursion

---
 src/main/cpp/lang/bash.cpp | 97 +++++++++++++++++++++++++++-----------
 1 file changed, 69 insertions(+), 28 deletions(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index a3a6fb1..5e2db10 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -1,7 +1,8 @@
 #include <algorithm>
 #include <cstddef>
+#include <memory_resource>
 #include <string_view>
-#include <utility>
+#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/escapes.hpp"
@@ -146,6 +147,7 @@ private:
         command_sub,
         subshell,
         arith_sub,
+        double_quoted_string,
     };
 
     enum struct State : Underlying {
@@ -156,25 +158,59 @@ private:
         parameter_sub,
     };
 
+    struct Nesting {
+        Context context;
+        /// @brief The state to be restored once the nested construct ends.
+        State outer_state;
+    };
+
     State state = State::before_command;
+    /// @brief The constructs which contain the current position, innermost last.
+    /// These are kept track of explicitly (rather than through recursion),
+    /// so that the required call stack does not depend on the nesting depth.
+    std::pmr::vector<Nesting> nesting;
 
 public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
+        std::pmr::memory_resource* memory,
         const Highlight_Options& options
     )
-        : Highlighter_Base { out, source, options }
+        : Highlighter_Base { out, source, memory, options }
+        , nesting { memory }
     {
     }
 
     bool operator()()
     {
-        consume_commands(Context::file);
+        while (!remainder.empty()) {
+            const Context context = nesting.empty() ? Context::file : nesting.back().context;
+            if (context == Context::double_quoted_string) {
+                consume_double_quoted_string();
+            }
+            else {
+                consume_commands(context);
+            }
+        }
         return true;
     }
 
 private:
+    void enter(Context context, State inner_state)
+    {
+        nesting.push_back({ context, state });
+        state = inner_state;
+    }
+
+    void leave()
+    {
+        ULIGHT_ASSERT(!nesting.empty());
+        state = nesting.back().outer_state;
+        nesting.pop_back();
+    }
+
+    /// @brief Consumes commands until a construct is entered or left.
     void consume_commands(Context context)
     {
         while (!remainder.empty()) {
@@ -195,8 +231,8 @@ private:
             case u8'"': {
                 start_word();
                 emit_and_advance(1, Highlight_Type::string_delim);
-                consume_double_quoted_string();
-                continue;
+                enter(Context::double_quoted_string, state);
+                return;
             }
             case u8'#': {
                 if (state != State::before_command && state != State::before_argument) {
@@ -232,7 +268,9 @@ private:
             case u8'$': {
                 if (starts_with_substitution(remainder)) {
                     start_word();
-                    consume_substitution();
+                    if (consume_substitution()) {
+                        return;
+                    }
                 }
                 else {
                     consume_word(context);
@@ -245,23 +283,24 @@ private:
                     continue;
                 }
                 start_word();
-                const State outer_state = std::exchange(state, State::before_command);
-                consume_commands(Context::subshell);
-                state = outer_state;
-                continue;
+                enter(Context::subshell, State::before_command);
+                return;
             }
             case u8')': {
                 if (context == Context::command_sub) {
                     emit_and_advance(1, Highlight_Type::string_interpolation_delim);
+                    leave();
                     return;
                 }
                 if (context == Context::subshell) {
                     emit_and_advance(1, Highlight_Type::symbol_parens);
+                    leave();
                     return;
                 }
                 if (context == Context::arith_sub) {
                     if (remainder.size() >= 2 && remainder[1] == u8')') {
                         emit_and_advance(2, Highlight_Type::string_interpolation_delim);
+                        leave();
                         return;
                     }
                     emit_and_advance(1, Highlight_Type::symbol_parens);
@@ -294,6 +333,7 @@ private:
             case u8'}': {
                 if (context == Context::parameter_sub) {
                     emit_and_advance(1, Highlight_Type::string_interpolation_delim);
+                    leave();
                     return;
                 }
                 emit_and_advance(1, Highlight_Type::symbol_brace);
@@ -381,6 +421,8 @@ private:
         }
     }
 
+    /// @brief Consumes the contents of a double-quoted string
+    /// until the string ends or a substitution is entered.
     void consume_double_quoted_string()
     {
         std::size_t chars = 0;
@@ -395,6 +437,7 @@ private:
             if (remainder[chars] == u8'\"') {
                 flush_chars();
                 emit_and_advance(1, Highlight_Type::string_delim);
+                leave();
                 return;
             }
             if (remainder[chars] == u8'\\' //
@@ -406,7 +449,9 @@ private:
             }
             if (starts_with_substitution(remainder.substr(chars))) {
                 flush_chars();
-                consume_substitution();
+                if (consume_substitution()) {
+                    return;
+                }
                 continue;
             }
             ++chars;
@@ -414,39 +459,35 @@ private:
         flush_chars();
     }
 
-    void consume_substitution()
+    /// @brief Consumes a substitution, or only its opening delimiter if it has nested contents.
+    /// @returns `true` if the contents of the substitution were entered.
+    bool consume_substitution()
     {
         ULIGHT_ASSERT(remainder.size() >= 2 && remainder.starts_with(u8'$'));
         const char8_t next = remainder[1];
         if (next == u8'{') {
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            const State outer_state = std::exchange(state, State::parameter_sub);
-            consume_commands(Context::parameter_sub);
-            state = outer_state;
-            return;
+            enter(Context::parameter_sub, State::parameter_sub);
+            return true;
         }
         if (next == u8'(') {
             if (remainder.size() >= 3 && remainder[2] == u8'(') {
                 emit_and_advance(3, Highlight_Type::string_interpolation_delim);
-                const State outer_state = std::exchange(state, State::before_command);
-                consume_commands(Context::arith_sub);
-                state = outer_state;
-                return;
+                enter(Context::arith_sub, State::before_command);
+                return true;
             }
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            const State outer_state = std::exchange(state, State::before_command);
-            consume_commands(Context::command_sub);
-            state = outer_state;
-            return;
+            enter(Context::command_sub, State::before_command);
+            return true;
         }
 
         if (is_bash_special_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
-            return;
+            return false;
         }
         if (const std::size_t id = match_identifier(remainder.substr(1))) {
             emit_and_advance(id + 1, Highlight_Type::string_interpolation);
-            return;
+            return false;
         }
         ULIGHT_ASSERT_UNREACHABLE(u8"No substitution to consume.");
     }
@@ -458,11 +499,11 @@ private:
 bool highlight_bash(
     Non_Owning_Buffer<Token>& out,
     std::u8string_view source,
-    std::pmr::memory_resource*,
+    std::pmr::memory_resource* memory,
     const Highlight_Options& options
 )
 {
-    return bash::Highlighter { out, source, options }();
+    return bash::Highlighter { out, source, memory, options }();
 }
 
 } // namespace ulight
-- 
2.43.0


From d55d878b2ea691885d7c8d92f7107581585f1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 158/173] fix: highlight deeply nested Kotlin string
 interpolation without recursion

---
 src/main/cpp/lang/kotlin.cpp | 105 ++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 38 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index dc6da02..b4b8c08 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
+#include <vector>
 
 #include "ulight/impl/highlighter.hpp"
 #include "ulight/impl/lang/cpp.hpp"
@@ -202,7 +203,29 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
 namespace {
 
 struct Highlighter : Highlighter_Base {
+private:
+    enum struct String_Type : Underlying {
+        character,
+        single_line,
+        multi_line,
+    };
+
+    /// @brief A string which contains an interpolated expression.
+    struct Nesting {
+        String_Type type;
+        /// @brief The level of braces surrounding the string.
+        std::size_t outer_brace_level;
+    };
 
+    /// @brief The strings whose interpolated expressions contain the current position,
+    /// innermost last.
+    /// These are kept track of explicitly (rather than through recursion),
+    /// so that the required call stack does not depend on the nesting depth.
+    std::pmr::vector<Nesting> nesting;
+    /// @brief The level of braces within the innermost interpolated expression.
+    std::size_t brace_level = 0;
+
+public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
@@ -210,24 +233,19 @@ struct Highlighter : Highlighter_Base {
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
+        , nesting { memory }
     {
     }
 
     bool operator()()
     {
-        consume_brace_balanced_tokens(Context::root);
+        consume_tokens();
         return true;
     }
 
 private:
-    enum struct Context : bool {
-        root,
-        string,
-    };
-
-    void consume_brace_balanced_tokens(Context context)
+    void consume_tokens()
     {
-        std::size_t brace_level = 0;
         while (true) {
             consume_whitespace();
             if (eof()) {
@@ -241,10 +259,15 @@ private:
             }
             if (remainder[0] == u8'}') {
                 if (brace_level == 0) {
-                    if (context == Context::string) {
-                        return;
+                    if (nesting.empty()) {
+                        emit_and_advance(1, Highlight_Type::error);
+                        continue;
                     }
-                    emit_and_advance(1, Highlight_Type::error);
+                    emit_and_advance(1, Highlight_Type::string_interpolation_delim);
+                    const auto [type, outer_brace_level] = nesting.back();
+                    nesting.pop_back();
+                    brace_level = outer_brace_level;
+                    consume_string_contents(type);
                 }
                 else {
                     --brace_level;
@@ -362,31 +385,42 @@ private:
 
     bool expect_string_or_character()
     {
-        constexpr std::u8string_view triple_quote = u8"\"\"\"";
-
-        std::u8string_view terminator;
-        bool is_multiline = false;
-
-        bool is_character = false;
+        String_Type type;
         if (remainder.starts_with(u8'\'')) {
-            terminator = u8"'";
-            is_character = true;
+            type = String_Type::character;
         }
         else if (remainder.starts_with(u8'"')) {
-            if (remainder.starts_with(triple_quote)) {
-                terminator = triple_quote;
-                is_multiline = true;
-            }
-            else {
-                terminator = u8"\"";
-            }
+            type = remainder.starts_with(string_delimiter(String_Type::multi_line))
+                ? String_Type::multi_line
+                : String_Type::single_line;
         }
         else {
             return false;
         }
-        ULIGHT_DEBUG_ASSERT(remainder.starts_with(terminator));
 
-        emit_and_advance(terminator.length(), Highlight_Type::string_delim);
+        emit_and_advance(string_delimiter(type).length(), Highlight_Type::string_delim);
+        consume_string_contents(type);
+        return true;
+    }
+
+    [[nodiscard]]
+    static std::u8string_view string_delimiter(String_Type type)
+    {
+        switch (type) {
+        case String_Type::character: return u8"'";
+        case String_Type::single_line: return u8"\"";
+        case String_Type::multi_line: return u8"\"\"\"";
+        }
+        ULIGHT_ASSERT_UNREACHABLE(u8"Invalid string type.");
+    }
+
+    /// @brief Consumes the contents of a string, including the closing delimiter,
+    /// or only up to (and including) the start of an interpolated expression.
+    void consume_string_contents(String_Type type)
+    {
+        const std::u8string_view terminator = string_delimiter(type);
+        const bool is_multiline = type == String_Type::multi_line;
+        const bool is_character = type == String_Type::character;
 
         std::size_t length = 0;
         auto flush = [&] {
@@ -417,11 +451,11 @@ private:
                     flush();
                     emit_and_advance(1, Highlight_Type::string_delim);
                 }
-                return true;
+                return;
             }
             if (!is_multiline && (remainder[length] == u8'\r' || remainder[length] == u8'\n')) {
                 flush();
-                return true;
+                return;
             }
 
             // 2. Check for StrRef or StrExprStart.
@@ -431,13 +465,9 @@ private:
                 if (remainder.substr(length).starts_with(u8"${")) {
                     flush();
                     emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-                    consume_brace_balanced_tokens(Context::string);
-                    if (eof()) {
-                        return true;
-                    }
-                    ULIGHT_ASSERT(remainder.starts_with(u8'}'));
-                    emit_and_advance(1, Highlight_Type::string_interpolation_delim);
-                    continue;
+                    nesting.push_back({ type, brace_level });
+                    brace_level = 0;
+                    return;
                 }
                 if (const std::size_t id = match_identifier(remainder.substr(length + 1))) {
                     flush();
@@ -470,7 +500,6 @@ private:
         }
 
         flush();
-        return true;
     }
 
     bool expect_number()
-- 
2.43.0


From f898fe5c15db5cb9dcfd3f602efc26f00eb37979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 159/173] fix: limit the recursion into nested COWEL groups,
 blocks, and strings

---
 include/ulight/impl/highlighter.hpp | 27 +++++++++++++++++++++++++++
 src/main/cpp/lang/cowel.cpp         | 14 ++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index 56997e7..e90e342 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -24,6 +24,33 @@ enum struct Coalescing : bool {
     forced
 };
 
+/// @brief The maximum depth of constructs within each other
+/// which is highlighted through recursion.
+/// Constructs nested any deeper are not recursed into,
+/// so that the required call stack does not depend on the length of the source.
+inline constexpr std::size_t max_recursive_nesting = 256;
+
+/// @brief Increments some nesting depth for as long as the guard exists.
+struct [[nodiscard]] Nesting_Guard {
+private:
+    std::size_t& m_depth;
+
+public:
+    explicit Nesting_Guard(std::size_t& depth)
+        : m_depth { depth }
+    {
+        ++m_depth;
+    }
+
+    Nesting_Guard(const Nesting_Guard&) = delete;
+    Nesting_Guard& operator=(const Nesting_Guard&) = delete;
+
+    ~Nesting_Guard()
+    {
+        --m_depth;
+    }
+};
+
 /// @brief A skeleton implementation for the language-specific highlighters.
 struct [[nodiscard]] Highlighter_Base {
 protected:
diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index 0bfe433..0ca73b9 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -343,6 +343,8 @@ enum struct Text_Kind : Underlying {
 };
 
 struct [[nodiscard]] Highlighter : Highlighter_Base {
+    /// @brief The amount of groups, blocks, and quoted strings around the current position.
+    std::size_t nesting_depth = 0;
 
     Highlighter(
         Non_Owning_Buffer<Token>& out,
@@ -585,9 +587,10 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
 
     bool expect_group()
     {
-        if (!remainder.starts_with(u8'(')) {
+        if (!remainder.starts_with(u8'(') || nesting_depth >= max_recursive_nesting) {
             return false;
         }
+        const Nesting_Guard guard { nesting_depth };
         emit_and_advance(1, Highlight_Type::symbol_parens);
 
         while (!eof()) {
@@ -815,9 +818,10 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
 
     bool expect_quoted_string()
     {
-        if (!remainder.starts_with(u8'"')) {
+        if (!remainder.starts_with(u8'"') || nesting_depth >= max_recursive_nesting) {
             return false;
         }
+        const Nesting_Guard guard { nesting_depth };
         emit_and_advance(1, Highlight_Type::string_delim);
         consume_markup_element_sequence(Text_Kind::quoted_string);
         if (remainder.starts_with(u8'"')) {
@@ -828,9 +832,10 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
 
     bool expect_quoted_member_name()
     {
-        if (!remainder.starts_with(u8'"')) {
+        if (!remainder.starts_with(u8'"') || nesting_depth >= max_recursive_nesting) {
             return false;
         }
+        const Nesting_Guard guard { nesting_depth };
         emit_and_advance(1, Highlight_Type::markup_attr_delim);
         consume_markup_element_sequence(Text_Kind::quoted_member_name);
         if (remainder.starts_with(u8'"')) {
@@ -841,9 +846,10 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
 
     bool expect_block()
     {
-        if (!remainder.starts_with(u8'{')) {
+        if (!remainder.starts_with(u8'{') || nesting_depth >= max_recursive_nesting) {
             return false;
         }
+        const Nesting_Guard guard { nesting_depth };
         emit_and_advance(1, Highlight_Type::symbol_brace);
         consume_markup_element_sequence(Text_Kind::block);
         if (remainder.starts_with(u8'}')) {
-- 
2.43.0


From 4348fc545f7ac79d6163748c17c6d04fec9ba402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 160/173] fix: limit the recursion into nested JavaScript
 templates and JSX

---
 src/main/cpp/lang/js.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 1eaaeb3..b578032 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -936,6 +936,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
 private:
     Input_Element input_element = Input_Element::hashbang_or_regex;
     const Mode mode;
+    /// @brief The amount of template substitutions and JSX braces around the current position.
+    std::size_t nesting_depth = 0;
 
 public:
     Highlighter(
@@ -987,6 +989,12 @@ private:
         }
     }
 
+    void consume_nested_js_before_closing_brace()
+    {
+        const Nesting_Guard guard { nesting_depth };
+        consume_js_before_closing_brace();
+    }
+
     void consume_token()
     {
         if (expect_whitespace() || //
@@ -1194,8 +1202,11 @@ private:
         // Therefore, the braced code has to be highlighted without looking past its end.
         const std::u8string_view after_js = remainder.substr(js_length);
         remainder = remainder.substr(0, js_length);
+        if (nesting_depth >= max_recursive_nesting) {
+            advance(js_length);
+        }
         while (!remainder.empty()) {
-            consume_js_before_closing_brace();
+            consume_nested_js_before_closing_brace();
             if (!remainder.empty()) {
                 consume_error();
             }
@@ -1395,10 +1406,10 @@ private:
                 return;
             }
             case u8'$': {
-                if (rem.starts_with(u8"${")) {
+                if (rem.starts_with(u8"${") && nesting_depth < max_recursive_nesting) {
                     flush_chars();
                     emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-                    consume_js_before_closing_brace();
+                    consume_nested_js_before_closing_brace();
                     if (!remainder.empty()) {
                         ULIGHT_ASSERT(remainder.starts_with(u8'}'));
                         emit_and_advance(1, Highlight_Type::string_interpolation_delim);
-- 
2.43.0


From 461c303c2ebcd2c481f8b8215401f8ffd9fdcb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 161/173] fix: limit the recursion into nested YAML flow
 collections

---
 src/main/cpp/lang/yaml.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 5fe30e4..6b9df56 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -762,6 +762,10 @@ private:
 
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
+            if (flow_level >= max_recursive_nesting) {
+                emit_and_advance(1, Highlight_Type::symbol_square);
+                return false;
+            }
             ++flow_level;
             consume_flow_sequence(indent);
             --flow_level;
@@ -770,6 +774,10 @@ private:
 
         // Flow mapping: {...}
         if (remainder.starts_with(u8'{')) {
+            if (flow_level >= max_recursive_nesting) {
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+                return false;
+            }
             ++flow_level;
             consume_flow_mapping(indent);
             --flow_level;
-- 
2.43.0


From ba657c3fd6054e4909b8f96f1e9d1c6f48755b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 162/173] fix: limit the recursion into nested Markdown block
 quotes, links, and emphasis

---
 src/main/cpp/lang/markdown.cpp | 70 +++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index fd17c9d..632044c 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -288,6 +288,8 @@ private:
     char8_t fence_char = u8'`';
     std::size_t fence_length = 0;
     bool in_html_comment = false;
+    /// @brief The amount of links and emphasis around the current position.
+    std::size_t inline_depth = 0;
 
 public:
     Highlighter(
@@ -568,11 +570,43 @@ private:
     bool expect_blockquote(const std::size_t content_len)
     {
         // https://spec.commonmark.org/0.31.2/#block-quotes (§4.5)
+        std::size_t consumed = consume_blockquote_marker(content_len);
+        if (consumed == 0) {
+            return false;
+        }
+
+        // Parse blockquote content as a full nested block line.
+        // Directly nested block quotes are consumed in a loop (rather than through recursion),
+        // so that the required call stack does not depend on the nesting depth.
+        std::size_t nested_len = content_len;
+        do {
+            nested_len -= consumed;
+            if (nested_len == 0 //
+                || expect_atx_heading(nested_len) //
+                || expect_thematic_break(nested_len) //
+                || expect_list_marker(nested_len)) {
+                return true;
+            }
+            consumed = consume_blockquote_marker(nested_len);
+        } while (consumed != 0);
+
+        if (!expect_indented_code(nested_len)) {
+            consume_inline_content(nested_len);
+        }
+        return true;
+    }
+
+    /// @brief Consumes the `>` at the start of a line of a block quote,
+    /// as well as any space around it.
+    /// @returns The length of what was consumed, or zero if there is no such marker.
+    [[nodiscard]]
+    std::size_t consume_blockquote_marker(const std::size_t content_len)
+    {
         const std::u8string_view s = remainder.substr(0, content_len);
         const std::size_t lead = match_lead_spaces(s);
 
         if (lead >= s.length() || s[lead] != u8'>') {
-            return false;
+            return 0;
         }
 
         advance(lead);
@@ -584,24 +618,7 @@ private:
             advance(1);
             ++consumed;
         }
-
-        const std::size_t nested_len = content_len - consumed;
-        if (nested_len == 0) {
-            return true;
-        }
-
-        // Parse blockquote content as a full nested block line.
-        const bool nested_block_matched //
-            = expect_atx_heading(nested_len) //
-            || expect_thematic_break(nested_len) //
-            || expect_list_marker(nested_len) //
-            || expect_blockquote(nested_len) //
-            || expect_indented_code(nested_len);
-
-        if (!nested_block_matched) {
-            consume_inline_content(nested_len);
-        }
-        return true;
+        return consumed;
     }
 
     [[nodiscard]]
@@ -799,6 +816,12 @@ private:
         }
     }
 
+    void consume_nested_inline_content(const std::size_t length, const char8_t prev_char = 0)
+    {
+        const Nesting_Guard guard { inline_depth };
+        consume_inline_content(length, prev_char);
+    }
+
     /// @brief Try to match a code span starting with backticks.
     /// Emits opening/closing ticks as `string_delim` and content as `text_code`.
     bool expect_code_span(const std::size_t avail)
@@ -963,7 +986,7 @@ private:
     {
         /// https://spec.commonmark.org/0.31.2/#links
         // remainder[0]='['
-        if (avail < 4) {
+        if (avail < 4 || inline_depth >= max_recursive_nesting) {
             return false;
         }
 
@@ -991,7 +1014,7 @@ private:
 
         emit_and_advance(1, Highlight_Type::symbol_formatting); // '['
         const std::size_t text_len = after_close >= 2 ? after_close - 2 : 0;
-        consume_inline_content(text_len); // link text
+        consume_nested_inline_content(text_len); // link text
         emit_and_advance(2, Highlight_Type::symbol_formatting); // ']('
         const std::size_t url_len = url_end - url_start;
         if (url_len > 0) {
@@ -1009,6 +1032,9 @@ private:
     bool expect_emphasis(std::size_t avail, char8_t prev_char)
     {
         /// https://spec.commonmark.org/0.31.2/#emphasis-and-strong-emphasis
+        if (inline_depth >= max_recursive_nesting) {
+            return false;
+        }
         const char8_t c = remainder[0];
 
         // Count the delimiter run (1–3 chars).
@@ -1085,7 +1111,7 @@ private:
 
                     // Match found — emit and recurse.
                     emit_and_advance(run, Highlight_Type::symbol_formatting);
-                    consume_inline_content(close_start - run, c);
+                    consume_nested_inline_content(close_start - run, c);
                     emit_and_advance(run, Highlight_Type::symbol_formatting);
                     return true;
                 }
-- 
2.43.0


From fa281b60a793fae1a0fc1828b9b7e1eb44a43ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:53 +0000
Subject: [PATCH 163/173] fix: do not search for the end of LLVM labels and
 COWEL line splices again and again

---
 src/main/cpp/lang/cowel.cpp |  6 ++++++
 src/main/cpp/lang/llvm.cpp  | 21 ++++++++++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index 0ca73b9..7eb6ed0 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -345,6 +345,8 @@ enum struct Text_Kind : Underlying {
 struct [[nodiscard]] Highlighter : Highlighter_Base {
     /// @brief The amount of groups, blocks, and quoted strings around the current position.
     std::size_t nesting_depth = 0;
+    /// @brief `true` if there is known to be no line terminator in `remainder`.
+    bool in_last_line = false;
 
     Highlighter(
         Non_Owning_Buffer<Token>& out,
@@ -443,8 +445,12 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
         if (!remainder.starts_with(u8"\\ "sv)) {
             return false;
         }
+        if (in_last_line) {
+            return false;
+        }
         if (const std::size_t newline = remainder.find_first_of(u8"\r\n", 2);
             newline == std::u8string_view::npos) {
+            in_last_line = true;
             return false;
         }
 
diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 0d6f8d4..7af80e6 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -123,6 +123,10 @@ Highlight_Type classify_keyword(std::u8string_view str)
 }
 
 struct Highlighter : Highlighter_Base {
+    /// @brief The end of the last sequence of label characters without a colon after it.
+    /// Nothing within that sequence can be a label.
+    std::size_t non_label_end = 0;
+
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
@@ -299,13 +303,16 @@ private:
 
     bool expect_keyword_or_label()
     {
-        const std::size_t label_length = ascii::length_if(remainder, is_llvm_identifier);
-        if (label_length && remainder.substr(label_length).starts_with(u8':')) {
-            // TODO: this is not very robust;
-            //       it does not consider intervening whitespace
-            emit_and_advance(label_length, Highlight_Type::name_label_decl);
-            emit_and_advance(1, Highlight_Type::name_label_delim);
-            return true;
+        if (index >= non_label_end) {
+            const std::size_t label_length = ascii::length_if(remainder, is_llvm_identifier);
+            if (label_length && remainder.substr(label_length).starts_with(u8':')) {
+                // TODO: this is not very robust;
+                //       it does not consider intervening whitespace
+                emit_and_advance(label_length, Highlight_Type::name_label_decl);
+                emit_and_advance(1, Highlight_Type::name_label_delim);
+                return true;
+            }
+            non_label_end = index + label_length;
         }
         const std::size_t length = match_keyword(remainder);
         if (!length) {
-- 
2.43.0


From 012a5a0fb256f5a8dc5e7595d422e7ecdcd18093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 164/173] fix: do not search for the end of unterminated JSX
 braces again and again

---
 src/main/cpp/lang/js.cpp | 91 ++++++++++++++++++++++++++++++++--------
 1 file changed, 74 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index b578032..ead54c8 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -532,10 +532,10 @@ std::size_t match_whitespace_comment_sequence(std::u8string_view str)
     return out.length;
 }
 
-} // namespace
-
-[[nodiscard]]
-JSX_Braced_Result match_jsx_braced(std::u8string_view str)
+/// @brief Like `match_jsx_braced`.
+/// @param open_braces If not null, receives the position of each brace which is unterminated.
+JSX_Braced_Result
+match_jsx_braced_impl(std::u8string_view str, std::pmr::vector<const char8_t*>* open_braces)
 {
     // https://facebook.github.io/jsx/#prod-JSXSpreadAttribute
     if (!str.starts_with(u8'{')) {
@@ -543,6 +543,9 @@ JSX_Braced_Result match_jsx_braced(std::u8string_view str)
     }
     std::size_t length = 1;
     std::size_t level = 1;
+    if (open_braces) {
+        open_braces->assign(1, str.data());
+    }
 
     while (length < str.length()) {
         if (const std::size_t skip_length = match_whitespace_comment_sequence(str.substr(length))) {
@@ -553,11 +556,17 @@ JSX_Braced_Result match_jsx_braced(std::u8string_view str)
         }
         switch (str[length]) {
         case u8'{': {
+            if (open_braces) {
+                open_braces->push_back(str.data() + length);
+            }
             ++level;
             ++length;
             break;
         }
         case u8'}': {
+            if (open_braces) {
+                open_braces->pop_back();
+            }
             ++length;
             if (--level == 0) {
                 return { .length = length, .is_terminated = true };
@@ -578,8 +587,45 @@ JSX_Braced_Result match_jsx_braced(std::u8string_view str)
     return { .length = length, .is_terminated = false };
 }
 
+} // namespace
+
+JSX_Braced_Result match_jsx_braced(std::u8string_view str)
+{
+    return match_jsx_braced_impl(str, nullptr);
+}
+
 namespace {
 
+/// @brief Remembers which braces are unterminated,
+/// so that code with many of those does not have to be searched from each of them.
+struct Unterminated_Braces {
+private:
+    /// @brief The end of the code in which `m_braces` are unterminated.
+    const char8_t* m_end = nullptr;
+    std::pmr::vector<const char8_t*> m_braces;
+
+public:
+    explicit Unterminated_Braces(std::pmr::memory_resource* const memory)
+        : m_braces { memory }
+    {
+    }
+
+    [[nodiscard]]
+    JSX_Braced_Result match_jsx_braced(const std::u8string_view str)
+    {
+        const char8_t* const end = str.data() + str.length();
+        if (end == m_end && std::ranges::binary_search(m_braces, str.data())) {
+            return { .length = str.length(), .is_terminated = false };
+        }
+        const JSX_Braced_Result result = js::match_jsx_braced(str);
+        if (result && !result.is_terminated) {
+            match_jsx_braced_impl(str, &m_braces);
+            m_end = end;
+        }
+        return result;
+    }
+};
+
 struct JSX_Tag_Consumer : virtual Whitespace_Comment_Consumer {
     virtual void done(JSX_Type) = 0;
     virtual void advance(std::size_t amount) = 0;
@@ -712,6 +758,7 @@ enum struct JSX_Tag_Subset : bool {
 bool match_jsx_tag_impl(
     JSX_Tag_Consumer& consumer,
     std::u8string_view str,
+    Unterminated_Braces& unterminated,
     JSX_Tag_Subset subset = JSX_Tag_Subset::all
 )
 {
@@ -766,7 +813,7 @@ bool match_jsx_tag_impl(
             return true;
         }
         // https://facebook.github.io/jsx/#prod-JSXAttributes
-        if (const JSX_Braced_Result spread = match_jsx_braced(str)) {
+        if (const JSX_Braced_Result spread = unterminated.match_jsx_braced(str)) {
             if (!spread.is_terminated) {
                 return false;
             }
@@ -787,7 +834,7 @@ bool match_jsx_tag_impl(
                 out.string_literal(s);
                 continue;
             }
-            if (const JSX_Braced_Result b = match_jsx_braced(str)) {
+            if (const JSX_Braced_Result b = unterminated.match_jsx_braced(str)) {
                 if (!b.is_terminated) {
                     return false;
                 }
@@ -884,10 +931,14 @@ std::optional<Token_Type> match_operator_or_punctuation(std::u8string_view str)
 
 [[nodiscard]]
 JSX_Tag_Result
-match_jsx_tag_impl(std::u8string_view str, JSX_Tag_Subset subset = JSX_Tag_Subset::all)
+match_jsx_tag_impl(
+    std::u8string_view str,
+    Unterminated_Braces& unterminated,
+    JSX_Tag_Subset subset = JSX_Tag_Subset::all
+)
 {
     Counting_JSX_Tag_Consumer out;
-    if (match_jsx_tag_impl(out, str, subset)) {
+    if (match_jsx_tag_impl(out, str, unterminated, subset)) {
         return { out.length, out.type };
     }
     return {};
@@ -897,7 +948,8 @@ match_jsx_tag_impl(std::u8string_view str, JSX_Tag_Subset subset = JSX_Tag_Subse
 
 JSX_Tag_Result match_jsx_tag(std::u8string_view str)
 {
-    return match_jsx_tag_impl(str);
+    Unterminated_Braces unterminated { std::pmr::get_default_resource() };
+    return match_jsx_tag_impl(str, unterminated);
 }
 
 namespace {
@@ -938,16 +990,19 @@ private:
     const Mode mode;
     /// @brief The amount of template substitutions and JSX braces around the current position.
     std::size_t nesting_depth = 0;
+    Unterminated_Braces unterminated_braces;
 
 public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
+        std::pmr::memory_resource* memory,
         const Highlight_Options& options,
         Mode mode
     )
-        : Highlighter_Base { out, source, options }
+        : Highlighter_Base { out, source, memory, options }
         , mode { mode }
+        , unterminated_braces { memory }
     {
     }
 
@@ -1031,7 +1086,9 @@ private:
         //
         // Furthermore, we ignore closing tags at the beginning.
 
-        const JSX_Tag_Result opening = match_jsx_tag_impl(remainder, JSX_Tag_Subset::non_closing);
+        const JSX_Tag_Result opening = match_jsx_tag_impl(
+            remainder, unterminated_braces, JSX_Tag_Subset::non_closing
+        );
         if (!opening) {
             return false;
         }
@@ -1104,7 +1161,7 @@ private:
 
         } out { *this };
 
-        match_jsx_tag_impl(out, remainder);
+        match_jsx_tag_impl(out, remainder, unterminated_braces);
     }
 
     void consume_jsx_children_and_closing_tag()
@@ -1137,7 +1194,7 @@ private:
             }
             case u8'<': {
                 // https://facebook.github.io/jsx/#prod-JSXElement
-                const JSX_Tag_Result tag = match_jsx_tag(rem);
+                const JSX_Tag_Result tag = match_jsx_tag_impl(rem, unterminated_braces);
                 if (!tag) {
                     emit_and_advance(1, Highlight_Type::error);
                     rem.remove_prefix(1);
@@ -1575,21 +1632,21 @@ private:
 bool highlight_javascript(
     Non_Owning_Buffer<Token>& out,
     std::u8string_view source,
-    std::pmr::memory_resource*,
+    std::pmr::memory_resource* memory,
     const Highlight_Options& options
 )
 {
-    return js::Highlighter { out, source, options, js::Mode::javascript }();
+    return js::Highlighter { out, source, memory, options, js::Mode::javascript }();
 }
 
 bool highlight_typescript(
     Non_Owning_Buffer<Token>& out,
     std::u8string_view source,
-    std::pmr::memory_resource*,
+    std::pmr::memory_resource* memory,
     const Highlight_Options& options
 )
 {
-    return js::Highlighter { out, source, options, js::Mode::typescript }();
+    return js::Highlighter { out, source, memory, options, js::Mode::typescript }();
 }
 
 } // namespace ulight
-- 
2.43.0


From c2488f1cfa88c8f1179f02508a5b14749db11dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:39 +0000
Subject: [PATCH 165/173] fix: search for escape sequences only within the
 JavaScript string, not again and again in all the rest

---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index ead54c8..0fbf872 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1404,7 +1404,8 @@ private:
             }
             else {
                 // Find next escape sequence or end of content.
-                const std::size_t next = std::min(remaining, remainder.find(u8'\\'));
+                const std::size_t next
+                    = std::min(remaining, remainder.substr(0, remaining).find(u8'\\'));
                 if (next > 0) {
                     advance(next);
                     chars += next;
-- 
2.43.0


From 37a37a8001de3393ef0174b46d4a4ed03539604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:39 +0000
Subject: [PATCH 166/173] fix: do not search all the rest of the source for the
 end of each HTML character reference again and again

---
 src/main/cpp/lang/html.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 1ca480f..c13980e 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -52,8 +52,10 @@ std::size_t match_character_reference(std::u8string_view str)
     if (!str.starts_with(u8'&')) {
         return 0;
     }
-    const std::size_t result = str.find(u8';', 1);
-    const bool success = result != std::u8string_view::npos
+    // Searching for a semicolon anywhere in the string would be slow if there are many ampersands.
+    const auto is_content = [](char8_t c) { return c == u8'#' || is_ascii_alphanumeric(c); };
+    const std::size_t result = ascii::length_if(str, is_content, 1);
+    const bool success = result < str.length() && str[result] == u8';'
         && is_character_reference_content(str.substr(1, result - 1));
     return success ? result + 1 : 0;
 }
-- 
2.43.0


From d2e648bb32e10df15f15f16f4cc689791b39338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:13 +0000
Subject: [PATCH 167/173] fix: do not search for the end of unterminated HTML
 end tags again and again

---
 src/main/cpp/lang/html.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index c13980e..229705a 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -260,7 +260,12 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
 namespace {
 
 struct Highlighter : Highlighter_Base {
+private:
+    /// @brief Set to `false` once there is nothing left that could terminate an end tag,
+    /// so that we don't have to search all the rest of the source again.
+    bool may_have_end_tag = true;
 
+public:
     Highlighter(
         Non_Owning_Buffer<Token>& out,
         std::u8string_view source,
@@ -508,8 +513,14 @@ private:
 
     bool expect_end_tag()
     {
+        if (!may_have_end_tag || !remainder.starts_with(u8"</")) {
+            return false;
+        }
         const End_Tag_Result result = match_end_tag_permissive(remainder);
         if (!result) {
+            // Unless the name is empty, what is missing is the closing angle bracket.
+            const std::u8string_view name = remainder.substr(2);
+            may_have_end_tag = !name.empty() && (is_html_whitespace(name[0]) || name[0] == u8'>');
             return false;
         }
         ULIGHT_DEBUG_ASSERT(result.name_length != 0);
-- 
2.43.0


From 7c33af2f3d175d01bbd116a03de1d010b28b3c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:13 +0000
Subject: [PATCH 168/173] fix: do not search for comments from each character
 of YAML whitespace again and again

---
 src/main/cpp/lang/yaml.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 6b9df56..8357756 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1258,7 +1258,10 @@ private:
             if (c == u8':' && length > 0 && is_separator(remainder.substr(length + 1))) {
                 break;
             }
-            ++length;
+            // If there is no comment after this whitespace, the scalar continues after all of it.
+            length += std::max(
+                std::size_t(1), ascii::length_if(remainder.substr(length), is_yaml_whitespace)
+            );
         }
 
         if (length > 0) {
-- 
2.43.0


From 8125ad680138c490a945e3f53a4b5c46f5e917a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:54 +0000
Subject: [PATCH 169/173] fix: do not search for the end of nested JSX braces
 again and again

---
 src/main/cpp/lang/js.cpp | 90 ++++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 0fbf872..42329f5 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -532,10 +532,18 @@ std::size_t match_whitespace_comment_sequence(std::u8string_view str)
     return out.length;
 }
 
+struct JSX_Brace {
+    const char8_t* open;
+    /// @brief Just past the closing brace, or null if there is none.
+    const char8_t* past_close;
+    /// @brief The index of the brace around this one.
+    std::size_t parent;
+};
+
 /// @brief Like `match_jsx_braced`.
-/// @param open_braces If not null, receives the position of each brace which is unterminated.
+/// @param braces If not null, all the braces that were found are appended, in order.
 JSX_Braced_Result
-match_jsx_braced_impl(std::u8string_view str, std::pmr::vector<const char8_t*>* open_braces)
+match_jsx_braced_impl(std::u8string_view str, std::pmr::vector<JSX_Brace>* braces)
 {
     // https://facebook.github.io/jsx/#prod-JSXSpreadAttribute
     if (!str.starts_with(u8'{')) {
@@ -543,9 +551,14 @@ match_jsx_braced_impl(std::u8string_view str, std::pmr::vector<const char8_t*>*
     }
     std::size_t length = 1;
     std::size_t level = 1;
-    if (open_braces) {
-        open_braces->assign(1, str.data());
-    }
+    std::size_t innermost = std::size_t(-1);
+    const auto push = [&](const char8_t* const open) {
+        if (braces) {
+            braces->push_back({ .open = open, .past_close = nullptr, .parent = innermost });
+            innermost = braces->size() - 1;
+        }
+    };
+    push(str.data());
 
     while (length < str.length()) {
         if (const std::size_t skip_length = match_whitespace_comment_sequence(str.substr(length))) {
@@ -556,18 +569,17 @@ match_jsx_braced_impl(std::u8string_view str, std::pmr::vector<const char8_t*>*
         }
         switch (str[length]) {
         case u8'{': {
-            if (open_braces) {
-                open_braces->push_back(str.data() + length);
-            }
+            push(str.data() + length);
             ++level;
             ++length;
             break;
         }
         case u8'}': {
-            if (open_braces) {
-                open_braces->pop_back();
-            }
             ++length;
+            if (braces) {
+                (*braces)[innermost].past_close = str.data() + length;
+                innermost = (*braces)[innermost].parent;
+            }
             if (--level == 0) {
                 return { .length = length, .is_terminated = true };
             }
@@ -596,16 +608,16 @@ JSX_Braced_Result match_jsx_braced(std::u8string_view str)
 
 namespace {
 
-/// @brief Remembers which braces are unterminated,
-/// so that code with many of those does not have to be searched from each of them.
-struct Unterminated_Braces {
+/// @brief Remembers where braces end,
+/// so that nested braces do not have to be searched from each of them.
+struct JSX_Braces {
 private:
-    /// @brief The end of the code in which `m_braces` are unterminated.
+    /// @brief The end of the code that contains `m_braces`.
     const char8_t* m_end = nullptr;
-    std::pmr::vector<const char8_t*> m_braces;
+    std::pmr::vector<JSX_Brace> m_braces;
 
 public:
-    explicit Unterminated_Braces(std::pmr::memory_resource* const memory)
+    explicit JSX_Braces(std::pmr::memory_resource* const memory)
         : m_braces { memory }
     {
     }
@@ -614,15 +626,21 @@ public:
     JSX_Braced_Result match_jsx_braced(const std::u8string_view str)
     {
         const char8_t* const end = str.data() + str.length();
-        if (end == m_end && std::ranges::binary_search(m_braces, str.data())) {
-            return { .length = str.length(), .is_terminated = false };
-        }
-        const JSX_Braced_Result result = js::match_jsx_braced(str);
-        if (result && !result.is_terminated) {
-            match_jsx_braced_impl(str, &m_braces);
+        if (end != m_end) {
+            m_braces.clear();
             m_end = end;
         }
-        return result;
+        const auto it = std::ranges::lower_bound(m_braces, str.data(), {}, &JSX_Brace::open);
+        if (it == m_braces.end()) {
+            return match_jsx_braced_impl(str, &m_braces);
+        }
+        if (it->open != str.data()) {
+            return match_jsx_braced_impl(str, nullptr);
+        }
+        if (!it->past_close) {
+            return { .length = str.length(), .is_terminated = false };
+        }
+        return { .length = std::size_t(it->past_close - it->open), .is_terminated = true };
     }
 };
 
@@ -758,7 +776,7 @@ enum struct JSX_Tag_Subset : bool {
 bool match_jsx_tag_impl(
     JSX_Tag_Consumer& consumer,
     std::u8string_view str,
-    Unterminated_Braces& unterminated,
+    JSX_Braces& braces,
     JSX_Tag_Subset subset = JSX_Tag_Subset::all
 )
 {
@@ -813,7 +831,7 @@ bool match_jsx_tag_impl(
             return true;
         }
         // https://facebook.github.io/jsx/#prod-JSXAttributes
-        if (const JSX_Braced_Result spread = unterminated.match_jsx_braced(str)) {
+        if (const JSX_Braced_Result spread = braces.match_jsx_braced(str)) {
             if (!spread.is_terminated) {
                 return false;
             }
@@ -834,7 +852,7 @@ bool match_jsx_tag_impl(
                 out.string_literal(s);
                 continue;
             }
-            if (const JSX_Braced_Result b = unterminated.match_jsx_braced(str)) {
+            if (const JSX_Braced_Result b = braces.match_jsx_braced(str)) {
                 if (!b.is_terminated) {
                     return false;
                 }
@@ -933,12 +951,12 @@ std::optional<Token_Type> match_operator_or_punctuation(std::u8string_view str)
 JSX_Tag_Result
 match_jsx_tag_impl(
     std::u8string_view str,
-    Unterminated_Braces& unterminated,
+    JSX_Braces& braces,
     JSX_Tag_Subset subset = JSX_Tag_Subset::all
 )
 {
     Counting_JSX_Tag_Consumer out;
-    if (match_jsx_tag_impl(out, str, unterminated, subset)) {
+    if (match_jsx_tag_impl(out, str, braces, subset)) {
         return { out.length, out.type };
     }
     return {};
@@ -948,8 +966,8 @@ match_jsx_tag_impl(
 
 JSX_Tag_Result match_jsx_tag(std::u8string_view str)
 {
-    Unterminated_Braces unterminated { std::pmr::get_default_resource() };
-    return match_jsx_tag_impl(str, unterminated);
+    JSX_Braces braces { std::pmr::get_default_resource() };
+    return match_jsx_tag_impl(str, braces);
 }
 
 namespace {
@@ -990,7 +1008,7 @@ private:
     const Mode mode;
     /// @brief The amount of template substitutions and JSX braces around the current position.
     std::size_t nesting_depth = 0;
-    Unterminated_Braces unterminated_braces;
+    JSX_Braces jsx_braces;
 
 public:
     Highlighter(
@@ -1002,7 +1020,7 @@ public:
     )
         : Highlighter_Base { out, source, memory, options }
         , mode { mode }
-        , unterminated_braces { memory }
+        , jsx_braces { memory }
     {
     }
 
@@ -1087,7 +1105,7 @@ private:
         // Furthermore, we ignore closing tags at the beginning.
 
         const JSX_Tag_Result opening = match_jsx_tag_impl(
-            remainder, unterminated_braces, JSX_Tag_Subset::non_closing
+            remainder, jsx_braces, JSX_Tag_Subset::non_closing
         );
         if (!opening) {
             return false;
@@ -1161,7 +1179,7 @@ private:
 
         } out { *this };
 
-        match_jsx_tag_impl(out, remainder, unterminated_braces);
+        match_jsx_tag_impl(out, remainder, jsx_braces);
     }
 
     void consume_jsx_children_and_closing_tag()
@@ -1194,7 +1212,7 @@ private:
             }
             case u8'<': {
                 // https://facebook.github.io/jsx/#prod-JSXElement
-                const JSX_Tag_Result tag = match_jsx_tag_impl(rem, unterminated_braces);
+                const JSX_Tag_Result tag = match_jsx_tag_impl(rem, jsx_braces);
                 if (!tag) {
                     emit_and_advance(1, Highlight_Type::error);
                     rem.remove_prefix(1);
-- 
2.43.0


From c23b3b99d3f3844ee324c88957cb01b25a3c3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:05 +0000
Subject: [PATCH 170/173] fix: keep an escaped CRLF in a raw Python string in
 the string

The backslash only took the carriage return with it, so that the line feed
ended a short string early.
---
 src/main/cpp/lang/python.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 42f1ab4..24480ff 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -429,6 +429,11 @@ private:
                     // However, a backslash still prevents the next source character from
                     // terminating the literal early, so they must be consumed together.
                     const std::u8string_view escaped_units = remainder.substr(1);
+                    if (escaped_units.starts_with(u8"\r\n")) {
+                        // CRLF is a single line break.
+                        emit_and_advance(3, Highlight_Type::string);
+                        continue;
+                    }
                     const auto [_, units] = utf8::decode_and_length_or_replacement(escaped_units);
                     const auto highlight = string_prefix_is_byte(prefix) && units != 1
                         ? Highlight_Type::error
-- 
2.43.0


From e6282d722bfb4917fa078371eed626e846bf9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 171/173] fix: highlight YAML block scalars which are indented
 no more than their header

The content has to be indented more than the key or indicator of the value,
not more than the line of the header if that is on a line of its own.
---
 src/main/cpp/lang/yaml.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 8357756..ff91072 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -531,6 +531,8 @@ private:
         // The column at which the remainder starts,
         // which is zero except within compact sequences.
         std::size_t column = 0;
+        // The least indentation of a value on the lines after its key or indicator.
+        std::size_t value_indent = 0;
 
         while (!eof()) {
             // Skip blank lines and comment lines, preserving indentation.
@@ -540,6 +542,10 @@ private:
             }
 
             const std::size_t line_indent = std::exchange(column, 0) + current_indent();
+            // The content of a block scalar does not have to be indented more than its header,
+            // but only more than the key or indicator it is a value of.
+            const std::size_t scalar_indent
+                = std::min(value_indent, line_indent == 0 ? 0 : line_indent + 1);
 
             // Document markers at indent 0 stop block parsing.
             if (line_indent == 0 && starts_with_document_marker()) {
@@ -553,6 +559,7 @@ private:
             // as well as explicit mapping key and value: ? key, : value
             if (starts_with_block_indicator()) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
+                value_indent = line_indent + 1;
                 const std::size_t space = ascii::length_if(remainder, is_yaml_whitespace);
                 advance(space);
 
@@ -568,6 +575,7 @@ private:
                 }
                 // Compact mapping: "key: value" on the same line
                 if (try_consume_block_mapping_key(line_indent + 1 + space)) {
+                    value_indent = line_indent + 2 + space;
                     continue;
                 }
                 // Otherwise, just a flow node
@@ -583,18 +591,19 @@ private:
                 || (remainder.starts_with(u8"|") && match_line_break(remainder.substr(1)))
                 || (remainder.starts_with(u8">") && match_line_break(remainder.substr(1)));
             if (is_block_scalar_header) {
-                consume_block_scalar(line_indent == 0 ? 0 : line_indent + 1);
+                consume_block_scalar(scalar_indent);
                 continue;
             }
 
             // Handle block mapping entry: key: value
             if (try_consume_block_mapping_key(line_indent)) {
+                value_indent = line_indent + 1;
                 continue;
             }
 
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                if (!consume_flow_node(line_indent == 0 ? 0 : line_indent + 1)) {
+                if (!consume_flow_node(scalar_indent)) {
                     skip_line();
                 }
                 continue;
-- 
2.43.0


From 7355bc941207542cb5818640546884981fe2128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:27 +0000
Subject: [PATCH 172/173] fix: highlight Rust string continuations before CRLF
 as escapes

Rust sources are processed as if each CRLF was LF, so that a backslash
before CRLF is as much a string continuation as one before LF.
---
 src/main/cpp/lang/rust.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 58c771b..89784f0 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -186,6 +186,10 @@ Escape_Result match_escape_sequence(const std::u8string_view str, String_Type ty
     case u8'\\':
     case u8'0':
     case u8'\n': return { .length = 2 };
+    case u8'\r':
+        // Rust sources are processed as if each CRLF was LF.
+        return str.starts_with(u8"\\\r\n") ? Escape_Result { .length = 3 }
+                                           : Escape_Result { .length = 1, .erroneous = true };
 
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
 
@@ -473,7 +477,7 @@ private:
             if (!escape) {
                 return false;
             }
-            if (escape.length == 2 && remainder[content_start + 1] == u8'\n') {
+            if (remainder[content_start + 1] == u8'\n' || remainder[content_start + 1] == u8'\r') {
                 // Handle the case of a STRING_CONTINUE in a CHAR_LITERAL,
                 // which we may have matched with match_escape_sequence, but is not allowed.
                 return false;
-- 
2.43.0


From 71889b5b4f037872776959e886cd2a2555053796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:01 +0000
Subject: [PATCH 173/173] fix: highlight Kotlin interpolated names in backticks

The name after the dollar sign is any Identifier, including those in backticks.
---
 src/main/cpp/lang/kotlin.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index b4b8c08..2294456 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -202,6 +202,18 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
 
 namespace {
 
+/// @brief Returns the length of the (terminated) backtick identifier at the start of `str`,
+/// or zero if there is none.
+std::size_t match_backtick_identifier(std::u8string_view str)
+{
+    // https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-Identifier
+    if (!str.starts_with(u8'`')) {
+        return 0;
+    }
+    const std::size_t end = str.find_first_of(u8"`\r\n", 1);
+    return end != std::u8string_view::npos && end > 1 && str[end] == u8'`' ? end + 1 : 0;
+}
+
 struct Highlighter : Highlighter_Base {
 private:
     enum struct String_Type : Underlying {
@@ -469,7 +481,12 @@ private:
                     brace_level = 0;
                     return;
                 }
-                if (const std::size_t id = match_identifier(remainder.substr(length + 1))) {
+                const std::u8string_view after_dollar = remainder.substr(length + 1);
+                std::size_t id = match_identifier(after_dollar);
+                if (!id) {
+                    id = match_backtick_identifier(after_dollar);
+                }
+                if (id) {
                     flush();
                     emit_and_advance(1 + id, Highlight_Type::string_interpolation);
                     continue;
-- 
2.43.0

