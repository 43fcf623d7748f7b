From 904763fcd80b9dbe228c8f1e399d1e2ad3f3fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 01/54] fix: generated headers include every standard header
 they use

The runtime used std::numeric_limits, strtol, snprintf and newlocale without
including <limits>, <cstdlib>, <cstdio> and <locale.h>: a generated header
that is the first include of a source file did not compile.
---
 source/cpp/protogen.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..032bc3b 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -29,6 +29,11 @@
 #include <memory>
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
+#include <cstdio>
+#include <cstdlib>
+#include <limits>
+#include <locale.h>
 
 namespace protogen_X_Y_Z {
 
-- 
2.43.0


From 6c6d5bd64edfeeb11bb78dabf991e767a1791cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 02/54] fix: deserialize_array from a character buffer compiles

It built a mutable iterator over a const buffer, an error in every caller
and, with clang, in every generated header that has a repeated field.
---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..a15479c 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -107,9 +107,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From da6b758371a7ffc44d47cb1ea5630982d87164fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 03/54] fix: serializing into a character buffer starts at its
 first byte

The output adapter advanced the iterator before writing, which skipped the
first byte of the buffer given to serialize(char*, size_t).
---
 source/cpp/protogen.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 032bc3b..c737dad 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -128,24 +128,29 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            put(value);
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
             for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+                put(*it);
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            while (*value != 0) put(*value++);
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
 
     protected:
         I beg_;
+        void put( char value )
+        {
+            *beg_ = value;
+            ++beg_;
+        }
 };
 
 struct istream
-- 
2.43.0


From c230ffcd8088cfced0766eeb790b5fcf086bb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 04/54] fix: line breaks in JSON text separate tokens

The input adapter swallowed line breaks, so '12' and '34' on two lines were
read as 1234, 'tru' and 'e' as true, and line breaks vanished from strings.
---
 source/cpp/protogen.hh | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c737dad..8f4d83a 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -171,7 +171,6 @@ class iterator_istream : public istream
         iterator_istream( const I& first, const I& last ) : beg_(first), end_(last), line_(1),
             column_(1)
         {
-            skip();
         }
         int peek() override
         {
@@ -181,9 +180,14 @@ class iterator_istream : public istream
         void next() override
         {
             if (beg_ == end_) return;
+            if (*beg_ == '\n')
+            {
+                ++line_;
+                column_ = 1;
+            }
+            else
+                ++column_;
             ++beg_;
-            ++column_;
-            skip();
         }
         bool eof() const override { return beg_ == end_; }
         int line() const override { return line_; }
@@ -191,15 +195,6 @@ class iterator_istream : public istream
     protected:
         I beg_, end_;
         int line_, column_;
-        void skip()
-        {
-            while (!(beg_ == end_) && *beg_ == '\n')
-            {
-                ++line_;
-                column_ = 1;
-                ++beg_;
-            }
-        }
 };
 
 template<class T>
-- 
2.43.0


From d5bf1f998081748ffc1dd685ce5e97edebbaaf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 05/54] fix: accept \\u escapes of ASCII characters

\\u0000 to \\u007f are valid JSON escapes, but made deserialization fail.
---
 source/cpp/protogen.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 8f4d83a..2d56639 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -491,6 +491,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint <= 0x7F)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From c44bc05ee39eb445f8b88f50470bda849004da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:35 +0000
Subject: [PATCH 06/54] fix: escape control characters in serialized strings

JSON does not allow them unescaped, and a NUL made the text unreadable for
the library itself.
---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..54a0286 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -76,7 +76,11 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
-- 
2.43.0


From f5523307d8c32cc5db7be10196e9d8d6e56fc18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 07/54] fix: reject unpaired surrogate escapes

A leading surrogate without its trailing half was dropped silently, or paired
with a trailing half found anywhere later in the string.
---
 source/cpp/protogen.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 2d56639..69abced 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -416,6 +416,9 @@ class tokenizer
             {
                 input_.next();
                 int c = input_.peek();
+                // the first half of a surrogate pair must be followed by the second one
+                if (lead != 0 && c != '\\')
+                    goto ESCAPE;
                 if (c == '"')
                 {
                     input_.next();
@@ -425,6 +428,8 @@ class tokenizer
                 {
                     input_.next();
                     c = input_.peek();
+                    if (lead != 0 && c != 'u')
+                        goto ESCAPE;
                     switch (c)
                     {
                         case '"':  value += '"'; break;
@@ -466,6 +471,8 @@ class tokenizer
                     return false;
             }
             int32_t codepoint = (int32_t) strtol(temp, nullptr, 16);
+            if (lead != 0 && (codepoint < 0xDC00 || codepoint > 0xDFFF))
+                return false;
 
             // first value in UTF-16 surrogate pair
             if (codepoint >= 0xD800 && codepoint <= 0xDBFF)
-- 
2.43.0


From 98f881e4b0ad981d5e379f6f7e4e9bb85d503fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 08/54] fix: string tokens carry their position

Errors at a string (wrong type, missing comma before a name) were reported at
line 0, column 0.
---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 69abced..9b694ff 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -422,7 +422,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 6c64c821767f7b669a7ed5e93bd1788dd9ff8ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 09/54] fix: a null member leaves a string field empty

The assignment after empty(true) made the field a non-null empty string.
---
 source/cpp/json-string.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 54a0286..96e831d 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -164,7 +164,8 @@ struct json<string_field, void>
         temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
         value.empty(result == PGR_NIL);
-        value = temp;
+        if (result != PGR_NIL)
+            value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From a48ea5b30fe616bff13a6c84df8f4f4a50b6171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 10/54] fix: null array elements are skipped

The reader left the 'null' token in place and then failed with 'invalid
array', even for arrays written by the library.
---
 source/cpp/json-array.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index a15479c..0fcc406 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -48,6 +48,7 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
                 int result = json<typename T::value_type>::read(ctx, temp);
                 if (result == PGR_ERROR) return result;
                 if (result == PGR_OK) value.push_back(temp);
+                if (result == PGR_NIL) ctx.tok->next(); // discards the 'null'
 
                 if (!ctx.tok->expect(token_id::COMMA))
                 {
-- 
2.43.0


From f0048ef9ac20b33ec9129b0d3c5c291eaa0f6351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 11/54] fix: assigning a field copies all of its state

After assignment from an empty field the old value stayed behind, so the two
fields compared different. A string changed in place was not copied.
---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..5ae3c5d 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -20,7 +20,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 96e831d..5f0d1d3 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -22,7 +22,7 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-- 
2.43.0


From d22297849ddb817b0fe087acc04aca3a6f802100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 12/54] fix: a string field changed in place compares by its
 contents

empty() and serialization treat such a field as set, the comparison
operators treated it as null, so a message did not equal its own round trip.
---
 source/cpp/json-string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 5f0d1d3..4981970 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -25,12 +25,12 @@ class string_field
         string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0


From b8dba4d54a9ed892a7fa2361141a1bcbb6de995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 13/54] fix: serialize reports failures of its fields

The result of writing fields and array elements was dropped: serialize()
returned true with a broken text when a string could not be escaped.
---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..dd92e98 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; if (json<decltype(value.$1$)>::write(ctx, value.$1$) != PGR_OK) return PGR_ERROR; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 0fcc406..385e6c3 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -66,7 +66,7 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            if (json<typename T::value_type>::write(ctx, *it) != PGR_OK) return PGR_ERROR;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From 8a5d7c9cd2f1b4c704a564fcc70c3ad511091c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 14/54] fix: ensure_ascii refuses ill-formed UTF-8

Overlong forms, encoded surrogates and values above U+10FFFF were written as
escapes of other characters or as broken surrogate pairs.
---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 4981970..61486f9 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -100,7 +100,7 @@ struct json<std::string, void>
                     return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                 uint8_t byte2 = value[i + 1];
-                if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
+                if (byte1 >= 0xC2 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
                     write_escaped_utf8(ctx.os, codepoint);
@@ -117,6 +117,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
+                    if (codepoint < 0x800 || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 3;
                     continue;
@@ -131,6 +133,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
+                    if (codepoint < 0x10000 || codepoint > 0x10FFFF)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                     // break the codepoint into UTF-16 surrogate pair
                     static const uint32_t LEAD_OFFSET = 0xD800 - (0x10000 >> 10);
-- 
2.43.0


From c33b22fb8eb16b8b35263d56cbdb459c5331ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 15/54] fix: floating point values survive serialization

'%f' keeps six decimal places, so 1e-9 became 0.000000.
---
 source/cpp/json-number.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5ae3c5d..847c837 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -79,13 +79,13 @@ std::string number_to_string( const T &value )
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::max_digits10, value);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::max_digits10, value);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From 6b9f2f3e4663b29dbc09922c73e7c34a7daa6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 16/54] fix: serialize refuses NaN and infinities

They were written as nan and inf, which no JSON reader accepts.
---
 source/cpp/json-number.hh | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 847c837..5b1bce9 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -98,6 +98,18 @@ std::string number_to_string( const T &value )
     return std::to_string(value);
 }
 
+template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
+bool is_finite_number( const T &value )
+{
+    return std::isfinite(value);
+}
+
+template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
+bool is_finite_number( const T & )
+{
+    return true;
+}
+
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 int equal_number( const T &value1, const T &value2 )
 {
@@ -154,6 +166,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
     }
     static int write( json_context &ctx, const T &value )
     {
+        if (!is_finite_number(value))
+            return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "number has no JSON representation");
         (*ctx.os) << number_to_string(value);
         return PGR_OK;
     }
-- 
2.43.0


From 817b7d9d15cc2e568f4e70419b57ee156a229214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 17/54] fix: reject malformed JSON numbers

Any run of digits, signs, dots and exponents was taken as a number, of which
only a leading part was converted: 1-2, 1.2.3 and - were accepted.
---
 source/cpp/protogen.hh | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 9b694ff..0ea36e7 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -535,7 +535,37 @@ class tokenizer
             return true;
         }
 
-        token parse_number() // TODO ensure number syntax according to RFC-4627 section 2.4
+        // checks the number syntax according to RFC-8259 section 6
+        static bool is_number( const std::string &text )
+        {
+            const char *ptr = text.c_str();
+            auto digits = [&ptr]() -> bool
+            {
+                const char *begin = ptr;
+                while (*ptr >= '0' && *ptr <= '9') ++ptr;
+                return ptr != begin;
+            };
+
+            if (*ptr == '-') ++ptr;
+            if (*ptr == '0')
+                ++ptr;
+            else
+            if (!digits()) return false;
+            if (*ptr == '.')
+            {
+                ++ptr;
+                if (!digits()) return false;
+            }
+            if (*ptr == 'e' || *ptr == 'E')
+            {
+                ++ptr;
+                if (*ptr == '+' || *ptr == '-') ++ptr;
+                if (!digits()) return false;
+            }
+            return *ptr == 0;
+        }
+
+        token parse_number()
         {
             std::string value;
             int line = input_.line();
@@ -551,7 +581,7 @@ class tokenizer
                 else
                     break;
             }
-            return token(token_id::NUMBER, value, line, column);
+            return token(is_number(value) ? token_id::NUMBER : token_id::NONE, value, line, column);
         }
 
         int ignore_array()
-- 
2.43.0


From 48edff9366bfa8e8b855e0e41cc894bffe79c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 18/54] fix: numbers are read exactly or not at all

An integer field got the leading digits of 1e3 and 1.5, and wrapped values
for numbers out of its range; a float field got infinity.
---
 source/cpp/json-number.hh | 49 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5b1bce9..98caf16 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -72,6 +72,52 @@ T string_to_number( const std::string &text )
 #endif
 }
 
+// Rewrites a JSON number in plain decimal notation. Fails if the number is not an
+// integer or can not fit in any integer type.
+static inline bool plain_integer( const std::string &text, std::string &output )
+{
+    size_t pos = text.find_first_of("eE");
+    long exponent = (pos == std::string::npos) ? 0 : strtol(text.c_str() + pos + 1, nullptr, 10);
+    std::string digits = text.substr(0, pos);
+    const bool negative = digits[0] == '-';
+    if (negative) digits.erase(0, 1);
+    pos = digits.find('.');
+    const long scale = (pos == std::string::npos) ? 0 : (long) (digits.length() - pos - 1);
+    if (pos != std::string::npos) digits.erase(pos, 1);
+    digits.erase(0, digits.find_first_not_of('0'));
+    output = "0";
+    if (digits.empty()) return true;
+    // ignore exponents that can not be compensated by the number of digits
+    const long limit = (long) text.length() + 20;
+    if (exponent > limit || exponent < -limit) return false;
+    exponent -= scale;
+    while (exponent < 0 && digits.back() == '0')
+    {
+        digits.pop_back();
+        ++exponent;
+    }
+    if (exponent < 0 || exponent > 20) return false;
+    output = (negative ? "-" : "") + digits.append((size_t) exponent, '0');
+    return true;
+}
+
+// Converts a JSON number, unless the type can not represent it
+template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
+bool convert_number( const std::string &text, T &value )
+{
+    value = string_to_number<T>(text);
+    return std::isfinite(value);
+}
+
+template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
+bool convert_number( const std::string &text, T &value )
+{
+    std::string plain;
+    if (!plain_integer(text, plain)) return false;
+    value = string_to_number<T>(plain);
+    return std::to_string(value) == plain;
+}
+
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 std::string number_to_string( const T &value )
 {
@@ -160,7 +206,8 @@ struct json<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
         if (tt.id == token_id::NIL) return PGR_NIL;
         if (tt.id != token_id::NUMBER)
             return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "invalid numeric value");
-        value = string_to_number<T>(tt.value);
+        if (!convert_number(tt.value, value))
+            return ctx.tok->error(error_code::PGERR_INVALID_VALUE, "number out of range");
         ctx.tok->next();
         return PGR_OK;
     }
-- 
2.43.0


From e4c97b646419b7836ccfa67a6c3a829274dda2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 19/54] fix: every bytes field is serialized as base64

The base64 serializer was only included for 'repeated bytes'. A header with a
plain bytes field did not compile, or wrote an array of numbers if another
field happened to be repeated.
---
 source/cpp/cppgen.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..550d3ae 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -546,12 +546,10 @@ static void generateInclusions( GeneratorContext &ctx )
     {
         for (const auto &field : message->fields)
         {
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From b42c344dc7db8d699386a8f3c97d7ca6e6d88821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 20/54] fix: 'repeated bytes' is a container of byte vectors

It was declared as a single byte vector, exactly like 'bytes'.
---
 source/cpp/cppgen.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 550d3ae..6db8559 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -142,10 +142,16 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.id == protogen::TYPE_BYTES)
+    {
+        valueType = "std::vector<" + valueType + '>';
+        if (!field.type.repeated)
+            return valueType;
+    }
+    if (field.type.repeated)
     {
         std::string output = "std::";
-        if (field.type.id == protogen::TYPE_BYTES || !useLists)
+        if (!useLists)
             output += "vector<";
         else
             output += "list<";
-- 
2.43.0


From 5c8c56fcbeca50fc4d22119a901f91738dc6f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 21/54] fix: reject invalid base64

Foreign characters were decoded as zero bits, padding was accepted anywhere
and a text cut short was reported as success.
---
 source/cpp/json-base64.hh | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..1ca7d9b 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -19,7 +19,22 @@ struct json< std::vector<uint8_t> >
         if (ch >= 'A' && ch <= 'Z') return ch - 'A';
         if (ch >= 'a' && ch <= 'z') return (ch - 'a') + 26;
         if (ch == '=') return 64;
-        return 0;
+        return -1;
+    }
+    // checks whether we have padded base64 as defined by RFC-4648 section 4
+    static bool is_base64( const std::string &text )
+    {
+        const size_t size = text.size();
+        if (size % 4 != 0) return false;
+        for (size_t i = 0; i < size; ++i)
+        {
+            int value = b64_int(text[i]);
+            if (value < 0) return false;
+            if (value != 64) continue;
+            // only the last two characters can be padding
+            if (i + 2 < size || (i + 2 == size && text[i + 1] != '=')) return false;
+        }
+        return true;
     }
     static int write( json_context &ctx, const std::vector<uint8_t> &value )
     {
@@ -66,6 +81,8 @@ struct json< std::vector<uint8_t> >
         size_t k = 0;
         int s[4];
         std::string text = ctx.tok->peek().value;
+        if (!is_base64(text))
+            return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
         ctx.tok->next();
         const char *ptr = text.c_str();
 
-- 
2.43.0


From fa1cb10f8214d162ef55ed2888e025bb52f42e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 22/54] fix: reject trailing commas in skipped values

They are rejected in the values of known fields already.
---
 source/cpp/protogen.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 0ea36e7..7ca8b01 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -594,6 +594,8 @@ class tokenizer
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
                 if (!expect(token_id::COMMA)) break;
+                if (peek().id == token_id::ARRE)
+                    return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
             }
             if (!expect(token_id::ARRE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid array");
@@ -614,6 +616,8 @@ class tokenizer
                 int result = ignore_value();
                 if (result != PGERR_OK) return result;
                 if (!expect(token_id::COMMA)) break;
+                if (peek().id == token_id::OBJE)
+                    return error(error_code::PGERR_IGNORE_FAILED, "expected field name");
             }
             if (!expect(token_id::OBJE))
                 return error(error_code::PGERR_IGNORE_FAILED, "invalid object");
-- 
2.43.0


From 2f5327abf52dffa9fae5bf7e2635bbc5df5990c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 23/54] fix: limit the nesting of skipped values

The skipper recurses once per level; a text like [[[[... overflowed the stack.
---
 source/cpp/protogen.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 7ca8b01..93389ac 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -387,6 +387,8 @@ class tokenizer
         token current_;
         istream &input_;
         ErrorInfo &error_;
+        int depth_ = 0;
+        static const int MAX_DEPTH = 512;
 
         std::string parse_identifier()
         {
@@ -632,9 +634,15 @@ class tokenizer
                 case token_id::EOS:
                     return error(error_code::PGERR_IGNORE_FAILED, "end of stream");
                 case token_id::OBJS:
-                    return ignore_object();
                 case token_id::ARRS:
-                    return ignore_array();
+                {
+                    if (depth_ >= MAX_DEPTH)
+                        return error(error_code::PGERR_IGNORE_FAILED, "too many nested values");
+                    ++depth_;
+                    int result = (peek().id == token_id::OBJS) ? ignore_object() : ignore_array();
+                    --depth_;
+                    return result;
+                }
                 case token_id::STRING:
                 case token_id::NUMBER:
                 case token_id::NIL:
-- 
2.43.0


From 46c40621c827dde450679205965bab7c78f63fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 24/54] fix: report an error for a top-level null

Deserialization failed without an error code.
---
 source/cpp/json-array.hh | 1 +
 source/cpp/json.hh       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 385e6c3..30e34bf 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -94,6 +94,7 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL) tok.error(error_code::PGERR_INVALID_ARRAY, "invalid array");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..e2eeace 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,7 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) tok.error(protogen_X_Y_Z::PGERR_INVALID_OBJECT, "objects must start with '{'"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From a199afb05ced517a63afcef4138035f1fae7b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 25/54] fix: custom JSON names are escaped in C++ and in JSON

A name with a backslash became a C++ escape sequence or broke the header, and
non-ASCII names were written raw even with ensure_ascii. Names are written by
the string serializer now.
---
 source/cpp/code.txt  |  2 +-
 source/cpp/cppgen.cc | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index dd92e98..3944135 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; if (json<decltype(value.$1$)>::write(ctx, value.$1$) != PGR_OK) return PGR_ERROR; f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { if (!f) (*ctx.os) << ','; if (json<std::string>::write(ctx, $2$) != PGR_OK) return PGR_ERROR; (*ctx.os) << ':'; if (json<decltype(value.$1$)>::write(ctx, value.$1$) != PGR_OK) return PGR_ERROR; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 6db8559..70e84b5 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -265,6 +265,30 @@ static std::string get_json_name( const Field &field )
     return name;
 }
 
+// Escapes text to be used in a C++ string literal
+static std::string literal( const std::string &value )
+{
+    std::string result;
+    for (auto c : value)
+    {
+        if (c == '\\' || c == '?')
+        {
+            result += '\\';
+            result += c;
+        }
+        else
+        if ((uint8_t) c < 0x20 || c == 0x7F)
+        {
+            char temp[5] = { 0 };
+            SNPRINTF(temp, sizeof(temp), "\\%03o", (unsigned) (uint8_t) c);
+            result += temp;
+        }
+        else
+            result += c;
+    }
+    return result;
+}
+
 static void generate_function__read_field( GeneratorContext &ctx, const Message &message, const std::string &typeName,
     bool is_persistent )
 {
@@ -310,7 +334,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
         if (ctx.obfuscate_strings)
             label = Printer::format("reveal(\"$1$\")", obfuscate(label));
         else
-            label = Printer::format("\"$1$\"", label);
+            label = Printer::format("\"$1$\"", literal(label));
 
         ctx.printer(CODE_JSON__WRITE__ITEM, field.name, label);
         ++i;
@@ -422,6 +446,8 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
             label = obfuscate(label);
+        else
+            label = literal(label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
@@ -544,7 +570,6 @@ static void generateInclusions( GeneratorContext &ctx )
 {
     bool has_array = false;
     bool has_base64 = false;
-    bool has_string = false;
     bool has_number = false;
 
     // check what types of fields we have
@@ -556,13 +581,10 @@ static void generateInclusions( GeneratorContext &ctx )
                 has_base64 = true;
             if (field.type.repeated)
                 has_array = true;
-            if (field.type.id == protogen::TYPE_STRING)
-                has_string = true;
-            else
             if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id <= protogen::TYPE_BOOL)
                 has_number = true;
 
-            if (has_array && has_base64 && has_string && has_number)
+            if (has_array && has_base64 && has_number)
                 break;
         }
     }
@@ -575,8 +597,8 @@ static void generateInclusions( GeneratorContext &ctx )
         ctx.printer(GENERATED__json_base___hh);
     if (has_number)
         ctx.printer(GENERATED__json_number_hh);
-    if (has_string)
-        ctx.printer(GENERATED__json_string_hh);
+    // field names are written as strings
+    ctx.printer(GENERATED__json_string_hh);
 }
 
 static void generateModel( GeneratorContext &ctx )
-- 
2.43.0


From 6de06c5b393bf1fa495c26de82c4956486fca9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 26/54] fix: obfuscated names never contain a zero byte

A character equal to the mask (the 'r' of a 5-letter name, the 'N' of a
10-letter one, the '9' of a 4-letter one) was obfuscated as zero, which cut
the name short in the generated code: the field was written under a wrong
name and never found when reading.
---
 source/cpp/cppgen.cc   | 4 +++-
 source/cpp/protogen.hh | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 70e84b5..14dcb8a 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -224,7 +224,9 @@ static inline std::string obfuscate( const std::string &value )
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
-        result << std::hex << ((uint8_t) value[i] ^ mask);
+        // never produces zero, which would end the literal; must match 'reveal'
+        uint8_t c = (uint8_t) value[i];
+        result << std::hex << (c == mask ? (int) c : c ^ mask);
     }
 	return result.str();
 }
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 93389ac..7f48528 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -678,7 +678,7 @@ static inline std::string reveal( const std::string &value )
 	std::string result;
     result.reserve(value.length());
 	for (size_t i = 0; i < value.length(); ++i)
-		result += (char) ((uint8_t) value[i] ^ mask);
+		result += (uint8_t) value[i] == mask ? value[i] : (char) ((uint8_t) value[i] ^ mask);
 	return result;
 }
 
-- 
2.43.0


From 4d2ce7289166b84c6aaf92255fffca1052048165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 27/54] fix: a line comment can be ended by the end of the file

---
 source/proto3.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..0e2b560 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,14 +375,14 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line = 1, int column = 1 )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) != '\n' && cur >= 0) temp.value += (char) cur;
                 return temp;
             }
             else
-- 
2.43.0


From b1a7f84f12d6e302d46caba57dd639e38b92b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 28/54] fix: reject unterminated comments and stray slashes in
 schemas

---
 source/proto3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 0e2b560..a574f3f 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -392,12 +392,12 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
-- 
2.43.0


From b5215378753bf96af245c1093dddcad42e474fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 29/54] fix: reject unterminated strings in schemas

---
 source/proto3.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index a574f3f..6f12e25 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -473,7 +473,8 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0)
+                    throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
-- 
2.43.0


From f1c49fadccfda117a5fc7195f929e6d35df93453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 30/54] fix: reject message bodies that are not closed

---
 source/proto3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index 6f12e25..58b5d0b 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -710,6 +710,8 @@ static void parseMessage( ProtoContext &ctx )
                 else
                     parseField(ctx, *message);
             }
+            if (ctx.tokens.current.code != TOKEN_END)
+                throw exception("Expected '}'", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
             return;
         }
-- 
2.43.0


From 16b105c2a098f9ca94ae0babca8af2ba5f063f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 31/54] fix: check field numbers against the documented ranges

---
 source/proto3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 58b5d0b..f42a528 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -660,10 +660,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     // index
     if (ctx.tokens.next().code != TOKEN_INTEGER)
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
-    field.index = (int) strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
+    auto index = strtoull(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (field.index <= 0 || field.index >= 0x1FFFFFFF || field.index == 0x4E1F || field.index == 0x4A38)
+    if (index == 0 || index > 0x1FFFFFFF || (index >= 0x4A38 && index <= 0x4E1F))
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
+    field.index = (int) index;
 
     ctx.tokens.next();
 
-- 
2.43.0


From 3101b9f2dcec9cd04b4b9ac6825c768b21e9736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 32/54] fix: field options must be separated by commas

---
 source/proto3.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index f42a528..a05588f 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -562,15 +562,12 @@ static OptionEntry parseOption( ProtoContext &ctx )
 
 static void parseFieldOptions( ProtoContext &ctx, OptionMap &entries )
 {
-    while (true)
+    do
     {
-        if (ctx.tokens.next().code == TOKEN_RBRACKET) break;
-        ctx.tokens.unget();
         OptionEntry option = parseOption(ctx);
-        if (ctx.tokens.next().code != TOKEN_COMMA) ctx.tokens.unget();
         entries[option.name] = option;
-    }
-    // give back the TOKEN_RBRACKET
+    } while (ctx.tokens.next().code == TOKEN_COMMA);
+    // give back the token after the options
     ctx.tokens.unget();
 }
 
-- 
2.43.0


From 44c8012ff38226fa5724a59342b0b8002c09ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 33/54] fix: reject repeated field and message names

---
 source/proto3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index a05588f..9418d8b 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -678,10 +678,14 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (ctx.tokens.current.code != TOKEN_SCOLON)
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
-    // check for repeated field indices
+    // check for repeated field indices and names
     for (auto it = message.fields.begin(); it != message.fields.end(); it++)
+    {
+        if (it->name == field.name)
+            throw exception("Field '" + field.name + "' is already defined", CURRENT_TOKEN_POSITION);
         if (it->index == field.index)
             throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
+    }
 
     message.fields.push_back(field);
 }
@@ -696,6 +700,8 @@ static void parseMessage( ProtoContext &ctx )
             auto message = std::make_shared<Message>();
             message->package = ctx.package;
             message->name = ctx.tokens.current.value;
+            if (findMessage(ctx, message->qualifiedName()) != nullptr)
+                throw exception("Message '" + message->name + "' is already defined", CURRENT_TOKEN_POSITION);
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
-- 
2.43.0


From 7d2132c9bde973ef0bce641c38ae3bc0bcda97b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 34/54] fix: reject names that give invalid or ambiguous
 headers

---
 source/cpp/cppgen.cc | 49 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 14dcb8a..b8675c9 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -291,6 +291,54 @@ static std::string literal( const std::string &value )
     return result;
 }
 
+// Reject names that would not give a valid header
+static void check_names( GeneratorContext &ctx )
+{
+    static const std::unordered_set<std::string> KEYWORDS = {
+        "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break",
+        "case", "catch", "char", "char8_t", "char16_t", "char32_t", "class", "compl", "concept",
+        "const", "consteval", "constexpr", "constinit", "const_cast", "continue", "co_await",
+        "co_return", "co_yield", "decltype", "default", "delete", "do", "double", "dynamic_cast",
+        "else", "enum", "explicit", "export", "extern", "false", "float", "for", "friend", "goto",
+        "if", "inline", "int", "long", "mutable", "namespace", "new", "noexcept", "not", "not_eq",
+        "nullptr", "operator", "or", "or_eq", "private", "protected", "public", "register",
+        "reinterpret_cast", "requires", "return", "short", "signed", "sizeof", "static",
+        "static_assert", "static_cast", "struct", "switch", "template", "this", "thread_local",
+        "throw", "true", "try", "typedef", "typeid", "typename", "union", "unsigned", "using",
+        "virtual", "void", "volatile", "wchar_t", "while", "xor", "xor_eq"
+    };
+    auto check = [](const std::string &name)
+    {
+        if (KEYWORDS.count(name) > 0)
+            throw exception("'" + name + "' is a C++ keyword and can not be used as name");
+    };
+
+    std::unordered_set<std::string> types;
+    for (const auto &message : ctx.root.messages)
+    {
+        check(message->name);
+        std::stringstream package(message->package);
+        std::string name;
+        while (std::getline(package, name, '.'))
+            check(name);
+
+        // each message is also declared as a structure with suffix '_type'
+        for (const char *suffix : { "", "_type" })
+            if (!types.insert(message->qualifiedName() + suffix).second)
+                throw exception("The type '" + message->qualifiedName() + suffix + "' is already defined");
+
+        std::unordered_set<std::string> names;
+        for (const auto &field : message->fields)
+        {
+            check(field.name);
+            if (field.name == message->name + "_type")
+                throw exception("Field '" + field.name + "' has the same name as its message");
+            if (!ctx.number_names && !is_transient(field) && !names.insert(get_json_name(field)).second)
+                throw exception("More than one field of '" + message->name + "' has the JSON name '" + get_json_name(field) + "'");
+        }
+    }
+}
+
 static void generate_function__read_field( GeneratorContext &ctx, const Message &message, const std::string &typeName,
     bool is_persistent )
 {
@@ -626,6 +674,7 @@ void CppGenerator::generate( Proto3 &root, std::ostream &out )
     ctx.cpp_use_lists = get_option(ctx.root.options, PROTOGEN_O_CPP_USE_LISTS, false);
     ctx.number_names = get_option(ctx.root.options, PROTOGEN_O_NUMBER_NAMES, false);
 
+    check_names(ctx);
     generateInclusions(ctx);
     generateModel(ctx);
 }
-- 
2.43.0


From 9522f5b24c24faa9b771aca40365266c37f66e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 35/54] fix: headers of different schemas never share their
 include guard

---
 source/cpp/cppgen.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index b8675c9..3777ae9 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -574,6 +574,12 @@ static std::string makeGuard( const std::string &fileName )
         else
             out += '_';
     }
+    // different file names must have different guards
+    uint64_t hash = 0xCBF29CE484222325ULL;
+    for (auto c : fileName)
+        hash = (hash ^ (uint8_t) c) * 0x100000001B3ULL;
+    out += '_';
+    out += std::to_string(hash);
     return out;
 }
 
-- 
2.43.0


From 4c99d7b32801587a8d466a30ae896158eb86cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 36/54] fix: report failures to read or write, keep the output
 of rejected schemas

---
 source/main.cc | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..8d2a26a 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -18,6 +18,7 @@
 #include <protogen/protogen.hh>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <limits.h>
 #include <stdlib.h>
 #include <algorithm>
@@ -49,28 +50,24 @@ int main( int argc, char **argv )
     std::ifstream input(argv[1]);
     if (!input.good()) main_error(std::string("Unable to open '") + argv[1] + "'");
 
-    std::ostream *output = &std::cout;
-    std::ofstream out;
-    if (argc == 3)
-    {
-        out.open(argv[2], std::ios_base::ate);
-        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
-        output = &out;
-    }
+    // the output is only touched after the code is completely generated
+    std::stringstream output;
 
-    int result = 0;
     #ifdef _WIN32
 	char fullPath[MAX_PATH] = { 0 };
-	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) return 1;
+	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0)
+		main_error(std::string("Unable to find '") + argv[1] + "'");
 	#else
 	char fullPath[PATH_MAX] = { 0 };
-	if (realpath(argv[1], fullPath) == nullptr) return 1;
+	if (realpath(argv[1], fullPath) == nullptr)
+		main_error(std::string("Unable to find '") + argv[1] + "'");
 	#endif
 
     protogen::Proto3 proto;
     try
     {
         proto.parse(input, fullPath);
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
@@ -79,14 +76,27 @@ int main( int argc, char **argv )
         }
 
         protogen::CppGenerator gen;
-        gen.generate(proto, *output);
+        gen.generate(proto, output);
     } catch (protogen::exception &ex)
     {
         std::cerr << fullPath << ':' << ex.line << ':' << ex.column << ": error: " << ex.cause() << std::endl;
-        result = 1;
+        return 1;
     }
     input.close();
-    if (argc == 3) out.close();
 
-    return result;
+    if (argc == 3)
+    {
+        std::ofstream out(argv[2]);
+        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
+        out << output.rdbuf();
+        out.close();
+        if (!out.good()) main_error(std::string("Unable to write '") + argv[2] + "'");
+    }
+    else
+    {
+        std::cout << output.rdbuf() << std::flush;
+        if (!std::cout.good()) main_error("Unable to write the output");
+    }
+
+    return 0;
 }
\ No newline at end of file
-- 
2.43.0


From f4d554eed6d9c2af4ec4f60ee638f0bd81c5957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 37/54] fix: embed the last line of a runtime file even without
 line break

---
 source/template.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/source/template.cc b/source/template.cc
index bf85b1d..fdfdab2 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -8,11 +8,8 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
     std::string line;
 
     output << "#define " << name << " \\\n";
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (line.length() > 0 && line[0] == '#' && line.find("AUTO-REMOVE") != std::string::npos)
             continue;
 
@@ -46,11 +43,8 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
     output << "#ifndef " << guard << '\n';
     output << "#define " << guard << '\n';
 
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (!content)
         {
             if (line.find("--- ") != 0) continue;
-- 
2.43.0


From 128ee028fbabf1cd8cf88017b5f99cf6d69ddf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 38/54] fix: question marks in runtime files do not form
 trigraphs

---
 source/template.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/template.cc b/source/template.cc
index fdfdab2..e6f072d 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -27,6 +27,9 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
             else
             if (c == '\\')
                 output << "\\\\";
+            else
+            if (c == '?') // avoid trigraphs
+                output << "\\?";
             else
                 output << c;
         }
@@ -68,6 +71,9 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
                 else
                 if (*it == '\\')
                     output << "\\\\";
+                else
+                if (*it == '?') // avoid trigraphs
+                    output << "\\?";
                 else
                     output << *it;
             }
-- 
2.43.0


From 182db3bb12a6c7a00a340fa653bab330e53d016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 39/54] fix: long chains of message references do not exhaust
 the stack

---
 source/cpp/cppgen.cc | 46 +++++++++++++++++++++++++-------------------
 source/main.cc       |  3 ++-
 source/proto3.cc     | 10 +++++++---
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 3777ae9..a89dc99 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -586,38 +586,44 @@ static std::string makeGuard( const std::string &fileName )
 typedef std::vector<std::shared_ptr<protogen::Message>> MessageList;
 typedef std::unordered_set<std::shared_ptr<protogen::Message>> MessageSet;
 
-static bool contains( const MessageList &items, const std::shared_ptr<protogen::Message> &message )
+static void sort( MessageList &output, MessageSet &done, MessageSet &pending, std::shared_ptr<protogen::Message> message )
 {
-    for (const auto &current : items)
-        if (current == message)
-            return true;
-    return false;
-}
-
-static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<protogen::Message> message )
-{
-    if (pending.count(message) > 0)
-        throw exception("circular reference with '" + message->name + "'");
-    if (contains(output, message))
+    if (done.count(message) > 0)
         return; // already processed
 
+    // messages being processed and their next field, because chains of references can be
+    // too long to use recursion
+    std::vector<std::pair<std::shared_ptr<protogen::Message>, size_t>> stack;
+    stack.emplace_back(message, 0);
     pending.insert(message);
-    for (auto &field : message->fields)
+    while (!stack.empty())
     {
-        if (field.type.ref != nullptr && !contains(output, field.type.ref))
-            sort(output, pending, field.type.ref);
+        auto current = stack.back().first;
+        if (stack.back().second < current->fields.size())
+        {
+            auto &ref = current->fields[stack.back().second++].type.ref;
+            if (ref == nullptr || done.count(ref) > 0)
+                continue;
+            if (!pending.insert(ref).second)
+                throw exception("circular reference with '" + ref->name + "'");
+            stack.emplace_back(ref, 0);
+        }
+        else
+        {
+            stack.pop_back();
+            pending.erase(current);
+            done.insert(current);
+            output.push_back(current);
+        }
     }
-    pending.erase(message);
-
-    output.push_back(message);
 }
 
 static void sort( GeneratorContext &ctx )
 {
     std::vector<std::shared_ptr<protogen::Message>> messages;
-    std::unordered_set<std::shared_ptr<protogen::Message>> pending;
+    MessageSet done, pending;
     for (auto &message : ctx.root.messages)
-        sort(messages, pending, message);
+        sort(messages, done, pending, message);
 
     ctx.root.messages.swap(messages);
 }
diff --git a/source/main.cc b/source/main.cc
index 8d2a26a..8cdf21d 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -63,7 +63,8 @@ int main( int argc, char **argv )
 		main_error(std::string("Unable to find '") + argv[1] + "'");
 	#endif
 
-    protogen::Proto3 proto;
+    // never destroyed, because releasing a long chain of references could exhaust the stack
+    static protogen::Proto3 &proto = *new protogen::Proto3();
     try
     {
         proto.parse(input, fullPath);
diff --git a/source/proto3.cc b/source/proto3.cc
index 9418d8b..1303ecd 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -491,10 +491,14 @@ struct Context
     Proto3 &tree;
     InputStream<T> &is;
     std::string package;
+    // messages by qualified name
+    std::unordered_map<std::string, std::shared_ptr<Message>> types;
 
     Context( Tokenizer<T> &tokenizer, Proto3 &tree, InputStream<T> &is ) :
         tokens(tokenizer), tree(tree), is(is)
     {
+        for (auto &message : tree.messages)
+            types[message->qualifiedName()] = message;
     }
 };
 
@@ -588,9 +592,8 @@ static void parseStandardOption( ProtoContext &ctx, OptionMap &entries )
 
 static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::string &name )
 {
-    for (auto it = ctx.tree.messages.begin(); it != ctx.tree.messages.end(); ++it)
-        if ((*it)->qualifiedName() == name) return *it;
-    return nullptr;
+    auto it = ctx.types.find(name);
+    return (it == ctx.types.end()) ? nullptr : it->second;
 }
 
 
@@ -717,6 +720,7 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.current.code != TOKEN_END)
                 throw exception("Expected '}'", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
+            ctx.types[message->qualifiedName()] = message;
             return;
         }
     }
-- 
2.43.0


From c70df186880ca17b1e8c9b1938ec46c7788f7644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 40/54] fix: a field named 'message' can be accessed

---
 source/cpp/json.hh     | 6 +++---
 source/cpp/protogen.hh | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index e2eeace..2e2e88b 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -61,7 +61,7 @@ static int read_object( json_context &ctx, T &object )
 }
 
 #define PG_X_Y_Z_ENTITY(N,O,S) \
-    struct N : public O, public protogen_X_Y_Z::message< O, S > \
+    struct N : public O, public protogen_X_Y_Z::message_interface_< O, S > \
     { \
         typedef O value_type; \
         typedef S serializer_type; \
@@ -69,8 +69,8 @@ static int read_object( json_context &ctx, T &object )
         N( const N& ) = default; \
         N( N &&that ) = default; \
         N &operator=( const N & ) = default; \
-        using protogen_X_Y_Z::message<O, S>::serialize; \
-        using protogen_X_Y_Z::message<O, S>::deserialize; \
+        using protogen_X_Y_Z::message_interface_<O, S>::serialize; \
+        using protogen_X_Y_Z::message_interface_<O, S>::deserialize; \
         bool deserialize( protogen_X_Y_Z::istream& in, protogen_X_Y_Z::Parameters *params = nullptr ) override \
         { \
             protogen_X_Y_Z::json_context ctx; \
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 7f48528..b5d16fd 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -682,13 +682,13 @@ static inline std::string reveal( const std::string &value )
 	return result;
 }
 
-// Parent class for messages
+// Parent class for messages (its name would hide a field of the same name)
 template<typename T, typename J>
-struct message
+struct message_interface_
 {
     typedef T underlying_type;
     typedef J serializer_type;
-    virtual ~message() = default;
+    virtual ~message_interface_() = default;
     virtual bool deserialize( istream &in, Parameters *params = nullptr ) = 0;
     virtual bool serialize( ostream &out, Parameters *params = nullptr ) const = 0;
 
-- 
2.43.0


From e228cc012a8f2f98b7f7687dac0ceca348586d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 41/54] fix: reject an ill-typed name option of a transient
 field

---
 source/cpp/cppgen.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index a89dc99..24ccfdc 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -333,8 +333,9 @@ static void check_names( GeneratorContext &ctx )
             check(field.name);
             if (field.name == message->name + "_type")
                 throw exception("Field '" + field.name + "' has the same name as its message");
-            if (!ctx.number_names && !is_transient(field) && !names.insert(get_json_name(field)).second)
-                throw exception("More than one field of '" + message->name + "' has the JSON name '" + get_json_name(field) + "'");
+            auto name = get_json_name(field); // also checks the option of transient fields
+            if (!ctx.number_names && !is_transient(field) && !names.insert(name).second)
+                throw exception("More than one field of '" + message->name + "' has the JSON name '" + name + "'");
         }
     }
 }
-- 
2.43.0


From 7d26b0c544d0deafe8f668e8cd7679820e9d41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 42/54] fix: string fields can be written to streams, as the
 documentation shows

---
 source/cpp/json-string.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 61486f9..58f553c 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -37,6 +37,8 @@ class string_field
         const value_type &operator *() const { return this->value_; }
 };
 
+inline std::ostream &operator<<( std::ostream &out, const string_field &value ) { return out << *value; }
+
 static void write_escaped_utf8(internal::ostream *out, uint32_t codepoint)
 {
     char buffer[7];
-- 
2.43.0


From 8b198320032ba19cf61a63a92d224b4dd699acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 43/54] fix: line breaks in the path of the schema do not leave
 the comment

---
 source/cpp/cppgen.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 24ccfdc..cce01b9 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -667,7 +667,11 @@ static void generateInclusions( GeneratorContext &ctx )
 static void generateModel( GeneratorContext &ctx )
 {
     std::string guard = makeGuard(ctx.root.fileName);
-    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, ctx.root.fileName, guard);
+    // line breaks would end the comment
+    std::string source = ctx.root.fileName;
+    for (auto &c : source)
+        if (c == '\n' || c == '\r') c = '_';
+    ctx.printer(CODE_HEADER, PROTOGEN_VERSION, source, guard);
 
     sort(ctx);
 
-- 
2.43.0


From 87fb488b76ea1123c285b2e2b7cb395bf0488876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 44/54] fix: checking for repeated fields does not take
 quadratic time

---
 source/proto3.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 1303ecd..35b11ce 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -17,6 +17,7 @@
 #include <protogen/proto3.hh>
 #include <iterator>
 #include <sstream>
+#include <unordered_set>
 
 
 #define IS_LETTER(x)           ( ((x) >= 'A' && (x) <= 'Z') || ((x) >= 'a' && (x) <= 'z') || (x) == '_' )
@@ -597,7 +598,15 @@ static std::shared_ptr<Message> findMessage( ProtoContext &ctx, const std::strin
 }
 
 
-static void parseField( ProtoContext &ctx, Message &message )
+// names and indices of the fields already parsed
+struct UsedFields
+{
+    std::unordered_set<std::string> names;
+    std::unordered_map<int, size_t> indices;
+};
+
+
+static void parseField( ProtoContext &ctx, Message &message, UsedFields &used )
 {
     Field field;
 
@@ -682,13 +691,11 @@ static void parseField( ProtoContext &ctx, Message &message )
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
     // check for repeated field indices and names
-    for (auto it = message.fields.begin(); it != message.fields.end(); it++)
-    {
-        if (it->name == field.name)
-            throw exception("Field '" + field.name + "' is already defined", CURRENT_TOKEN_POSITION);
-        if (it->index == field.index)
-            throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
-    }
+    if (!used.names.insert(field.name).second)
+        throw exception("Field '" + field.name + "' is already defined", CURRENT_TOKEN_POSITION);
+    auto result = used.indices.emplace(field.index, message.fields.size());
+    if (!result.second)
+        throw exception("Field '" + message.fields[result.first->second].name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
 
     message.fields.push_back(field);
 }
@@ -708,6 +715,7 @@ static void parseMessage( ProtoContext &ctx )
             if (ctx.tokens.next().code != TOKEN_BEGIN)
                 throw exception("Missing message body", CURRENT_TOKEN_POSITION);
 
+            UsedFields used;
             while (ctx.tokens.next().code != TOKEN_EOF)
             {
                 if (ctx.tokens.current.code == TOKEN_END)
@@ -715,7 +723,7 @@ static void parseMessage( ProtoContext &ctx )
                 if (ctx.tokens.current.code == TOKEN_OPTION)
                     parseStandardOption(ctx, message->options);
                 else
-                    parseField(ctx, *message);
+                    parseField(ctx, *message, used);
             }
             if (ctx.tokens.current.code != TOKEN_END)
                 throw exception("Expected '}'", CURRENT_TOKEN_POSITION);
-- 
2.43.0


From 2fb0110c4caf01e0a0776e0fed7d1583c28f7277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:22 +0000
Subject: [PATCH 45/54] fix: carriage returns in embedded sources are escaped

---
 source/template.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/template.cc b/source/template.cc
index e6f072d..1e5c0d1 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -30,6 +30,9 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
             else
             if (c == '?') // avoid trigraphs
                 output << "\\?";
+            else
+            if (c == '\r') // would end the line
+                output << "\\r";
             else
                 output << c;
         }
@@ -52,6 +55,7 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
         {
             if (line.find("--- ") != 0) continue;
             line = line.substr(4);
+            if (!line.empty() && line.back() == '\r') line.pop_back();
             output << "#define " << line << " \\\n";
             content = true;
         }
@@ -74,6 +78,9 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
                 else
                 if (*it == '?') // avoid trigraphs
                     output << "\\?";
+                else
+                if (*it == '\r') // would end the line
+                    output << "\\r";
                 else
                     output << *it;
             }
-- 
2.43.0


From 5b78751ead75ea664cf24046b1fc4a97b30f6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:22 +0000
Subject: [PATCH 46/54] fix: dollar signs in the runtime sources do not
 truncate the generated header

---
 source/cpp/cppgen.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index cce01b9..55b7043 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -651,17 +651,17 @@ static void generateInclusions( GeneratorContext &ctx )
                 break;
         }
     }
-    // include the necessary headers
-    ctx.printer(GENERATED__protogen_hh);
-    ctx.printer(GENERATED__json_hh);
+    // include the necessary headers, which have no placeholders to replace
+    ctx.printer.print(GENERATED__protogen_hh);
+    ctx.printer.print(GENERATED__json_hh);
     if (has_array)
-        ctx.printer(GENERATED__json_array_hh);
+        ctx.printer.print(GENERATED__json_array_hh);
     if (has_base64)
-        ctx.printer(GENERATED__json_base___hh);
+        ctx.printer.print(GENERATED__json_base___hh);
     if (has_number)
-        ctx.printer(GENERATED__json_number_hh);
+        ctx.printer.print(GENERATED__json_number_hh);
     // field names are written as strings
-    ctx.printer(GENERATED__json_string_hh);
+    ctx.printer.print(GENERATED__json_string_hh);
 }
 
 static void generateModel( GeneratorContext &ctx )
-- 
2.43.0


From 169b2b8ecb4ffa7f32206ec0c7d4ac0294be6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 47/54] fix: incomplete writes of the header are failures

---
 source/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index 8cdf21d..675a5b4 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -89,13 +89,13 @@ int main( int argc, char **argv )
     {
         std::ofstream out(argv[2]);
         if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
-        out << output.rdbuf();
+        out << output.str(); // inserting the buffer does not tell about incomplete writes
         out.close();
         if (!out.good()) main_error(std::string("Unable to write '") + argv[2] + "'");
     }
     else
     {
-        std::cout << output.rdbuf() << std::flush;
+        std::cout << output.str() << std::flush;
         if (!std::cout.good()) main_error("Unable to write the output");
     }
 
-- 
2.43.0


From 9cc7c13a193a61af7112635fed3d73dc0709950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:28 +0000
Subject: [PATCH 48/54] fix: running out of memory never yields a truncated
 header

---
 source/cpp/cppgen.cc |  2 ++
 source/exception.cc  |  1 +
 source/main.cc       | 14 +++++++++++---
 source/printer.hh    |  1 +
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 55b7043..5173f3a 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -221,6 +221,7 @@ static inline std::string obfuscate( const std::string &value )
 {
     uint8_t mask = rol<uint8_t>(0x93U, value.length() % 8);
 	std::stringstream result;
+	result.exceptions(std::ios_base::badbit);
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
@@ -318,6 +319,7 @@ static void check_names( GeneratorContext &ctx )
     {
         check(message->name);
         std::stringstream package(message->package);
+        package.exceptions(std::ios_base::badbit);
         std::string name;
         while (std::getline(package, name, '.'))
             check(name);
diff --git a/source/exception.cc b/source/exception.cc
index 9eddef0..658182d 100644
--- a/source/exception.cc
+++ b/source/exception.cc
@@ -41,6 +41,7 @@ const char *exception::what() const throw()
 const std::string exception::cause() const
 {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit);
     ss << message << " (" << line << ':' << column << ')';
     return ss.str();
 }
diff --git a/source/main.cc b/source/main.cc
index 675a5b4..8a4387f 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -22,6 +22,7 @@
 #include <limits.h>
 #include <stdlib.h>
 #include <algorithm>
+#include <new>
 #include <cmake.hh>
 
 #ifdef _WIN32
@@ -44,6 +45,7 @@ void main_error( const std::string &message )
 
 
 int main( int argc, char **argv )
+try
 {
     if (argc != 2 && argc != 3) main_usage();
 
@@ -52,6 +54,7 @@ int main( int argc, char **argv )
 
     // the output is only touched after the code is completely generated
     std::stringstream output;
+    output.exceptions(std::ios_base::badbit); // otherwise it ignores the lack of memory
 
     #ifdef _WIN32
 	char fullPath[MAX_PATH] = { 0 };
@@ -84,20 +87,25 @@ int main( int argc, char **argv )
         return 1;
     }
     input.close();
+    const std::string code = output.str();
 
     if (argc == 3)
     {
         std::ofstream out(argv[2]);
         if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
-        out << output.str(); // inserting the buffer does not tell about incomplete writes
+        out << code; // inserting the buffer does not tell about incomplete writes
         out.close();
         if (!out.good()) main_error(std::string("Unable to write '") + argv[2] + "'");
     }
     else
     {
-        std::cout << output.str() << std::flush;
+        std::cout << code << std::flush;
         if (!std::cout.good()) main_error("Unable to write the output");
     }
 
     return 0;
-}
\ No newline at end of file
+}
+catch (std::bad_alloc &)
+{
+    main_error("Out of memory");
+}
diff --git a/source/printer.hh b/source/printer.hh
index e482437..cf87d74 100644
--- a/source/printer.hh
+++ b/source/printer.hh
@@ -54,6 +54,7 @@ class Printer
         static std::string format(const char* format, const T&... args)
         {
             std::stringstream ss;
+            ss.exceptions(std::ios_base::badbit);
             print(ss, format, {toString(args)...});
             return ss.str();
         }
-- 
2.43.0


From 1b370fd2b7f7e52851e0d8d71a16a05bb678cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:37 +0000
Subject: [PATCH 49/54] fix: the input stream gets its flags back when reading
 it throws

---
 source/cpp/protogen.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index b5d16fd..f389dd3 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -695,13 +695,18 @@ struct message_interface_
     virtual bool deserialize( std::istream &in, Parameters *params = nullptr )
     {
         bool skip = in.flags() & std::ios_base::skipws;
+        // even if something throws
+        struct restore
+        {
+            std::istream &in;
+            bool skip;
+            ~restore() { if (skip) std::skipws(in); }
+        } guard = { in, skip };
         std::noskipws(in);
         std::istream_iterator<char> end;
         std::istream_iterator<char> begin(in);
         iterator_istream<std::istream_iterator<char>> is(begin, end);
-        bool result = deserialize(is, params);
-        if (skip) std::skipws(in);
-        return result;
+        return deserialize(is, params);
     }
 
     virtual bool deserialize( const std::string &in, Parameters *params = nullptr )
-- 
2.43.0


From ac5d9b295644e3ed351c3af4adf04ccacee7a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:03 +0000
Subject: [PATCH 50/54] fix: lines and columns beyond the range of int are
 undefined behaviour

---
 source/cpp/protogen.hh | 3 ++-
 source/proto3.cc       | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index f389dd3..2d6b799 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -182,10 +182,11 @@ class iterator_istream : public istream
             if (beg_ == end_) return;
             if (*beg_ == '\n')
             {
-                ++line_;
+                if (line_ < std::numeric_limits<int>::max()) ++line_;
                 column_ = 1;
             }
             else
+            if (column_ < std::numeric_limits<int>::max())
                 ++column_;
             ++beg_;
         }
diff --git a/source/proto3.cc b/source/proto3.cc
index 35b11ce..b9daf67 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -16,6 +16,7 @@
 
 #include <protogen/proto3.hh>
 #include <iterator>
+#include <limits>
 #include <sstream>
 #include <unordered_set>
 
@@ -205,7 +206,7 @@ template <typename I> class InputStream
             }
             if (last_ == '\n')
             {
-                ++line_;
+                if (line_ < std::numeric_limits<int>::max()) ++line_;
                 column_ = 0;
             }
             if (cur_ == end_)
@@ -216,7 +217,7 @@ template <typename I> class InputStream
 
             last_ = *cur_ & 0xFF;
             ++cur_;
-            ++column_;
+            if (column_ < std::numeric_limits<int>::max()) ++column_;
             return last_;
         }
 
-- 
2.43.0


From 0b78d3a0abcccdc7624d4f910185d416e80e7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:29 +0000
Subject: [PATCH 51/54] fix: NUL characters in member names are not taken for
 other characters in obfuscated code

---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 2d6b799..5e336cf 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -679,7 +679,7 @@ static inline std::string reveal( const std::string &value )
 	std::string result;
     result.reserve(value.length());
 	for (size_t i = 0; i < value.length(); ++i)
-		result += (uint8_t) value[i] == mask ? value[i] : (char) ((uint8_t) value[i] ^ mask);
+		result += (value[i] == 0 || (uint8_t) value[i] == mask) ? value[i] : (char) ((uint8_t) value[i] ^ mask);
 	return result;
 }
 
-- 
2.43.0


From de2cedc7156ce461c9814cba64bc2f527411fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 52/54] fix: the flags of the input stream are restored
 whatever interrupts parsing

---
 source/proto3.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index b9daf67..041c2c5 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -792,7 +792,13 @@ static void parseProto( ProtoContext &ctx )
 
 void Proto3::parse( std::istream &input, const std::string &fileName )
 {
-    std::ios_base::fmtflags flags = input.flags();
+    // even if something throws
+    struct restore
+    {
+        std::istream &input;
+        std::ios_base::fmtflags flags;
+        ~restore() { if (flags & std::ios::skipws) std::skipws(input); }
+    } guard = { input, input.flags() };
     std::noskipws(input);
     std::istream_iterator<char> end;
     std::istream_iterator<char> begin(input);
@@ -803,15 +809,7 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
     ProtoContext ctx(tok, *this, is);
     this->fileName = fileName;
 
-    try
-    {
-        parseProto(ctx);
-        if (flags & std::ios::skipws) std::skipws(input);
-    } catch (exception &ex)
-    {
-        if (flags & std::ios::skipws) std::skipws(input);
-        throw ex;
-    }
+    parseProto(ctx);
 
     // check if we have unresolved types
     for (auto &message : this->messages)
-- 
2.43.0


From 0510aa64af480e6d0fd7984e22028eac4bb6a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:23 +0000
Subject: [PATCH 53/54] fix: the template tool reports incomplete input and
 output

---
 source/template.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/template.cc b/source/template.cc
index 1e5c0d1..9f0cab5 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -127,6 +127,11 @@ int main( int argc, char **argv )
     else
         process(input, output, guard);
 
-
+    output.close();
+    if (input.bad() || !output.good())
+    {
+        std::cerr << "Unable to process '" << argv[1] << "'" << std::endl;
+        return 1;
+    }
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From a0b7550ed046e1d3502fef1f49761275f67341c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:36 +0000
Subject: [PATCH 54/54] fix: the width of an output stream pads the first
 character of the text

---
 source/cpp/protogen.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 5e336cf..af2b33b 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -741,6 +741,7 @@ struct message_interface_
     virtual bool serialize( std::ostream &out, Parameters *params = nullptr ) const
     {
         typedef std::ostream_iterator<char> ittype;
+        out.width(0); // otherwise the first character would be padded
         ittype begin(out);
         iterator_ostream<ittype> os(begin);
         return serialize(os, params);
-- 
2.43.0

