From 5b1334c4e7d109af85cde34075dcd3bdb1bbca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:18 +0000
Subject: [PATCH 01/71] fix: Queue::first/last report an error on an empty
 queue

They read past the end of an empty std::queue, while every other accessor
checks for emptiness.
---
 src/include/containers/Queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/containers/Queue.h b/src/include/containers/Queue.h
index 1d140ee..80db91e 100644
--- a/src/include/containers/Queue.h
+++ b/src/include/containers/Queue.h
@@ -155,21 +155,25 @@ Queue<ValueType> Queue<ValueType>::operator=(const Queue& queue2) {
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::first() {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::first() const {
+  emptyCheck();
   return privateQueue.front();
 }
 
 template <typename ValueType>
 ValueType& Queue<ValueType>::last() {
+  emptyCheck();
   return privateQueue.back();
 }
 
 template <typename ValueType>
 const ValueType& Queue<ValueType>::last() const {
+  emptyCheck();
   return privateQueue.back();
 }
 
-- 
2.43.0


From 9fd3ba484f60335392f354a221df407eea038d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:18 +0000
Subject: [PATCH 02/71] fix: reading a Vector stops with an error on malformed
 text

A failed element or separator read was ignored: "{1,}" and "{1,x}" looped
forever pushing elements, and empty input tested an uninitialised character.
---
 src/include/containers/Vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index 8503569..f1dc52f 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -403,20 +403,22 @@ std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
 template <typename ValueType>
 std::istream& operator>>(std::istream& is, Vector<ValueType>& vec) {
   char ch;
-  is >> ch;
-  if (ch != '{') {
+  if (!(is >> ch) || ch != '{') {
     error("A vector should startwith \'{\'");
   }
   vec.clear();
-  is >> ch;
+  if (!(is >> ch)) {
+    error("A vector must endwith \'}\'");
+  }
   if (ch != '}') {
     is.unget();
     while (true) {
       ValueType value;
-      is >> value;
+      if (!(is >> value)) {
+        error("Invalid element in a vector");
+      }
       vec.push(value);
-      is >> ch;
-      if (is.eof()) {
+      if (!(is >> ch)) {
         error("A vector must endwith \'}\'");
       }
       if (ch == '}') {
-- 
2.43.0


From 0876072ff30331cc04ffa6a9a59c09631f566049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 03/71] fix: Trie iteration continues after the first branch

visit() gave up when it came back to the first level and resumed from the
parent's code instead of the code it had just finished, so iteration lost
words.
---
 src/string_utils/Trie.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 6fea1af..e73383a 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -95,11 +95,11 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
     *n = next;
     return visit(n, offset, buffer);
   }
-  if (buffer->size() == 1 || buffer->empty()) {
+  if (buffer->empty()) {
     return false;
   } else {
-    buffer->pop_back();
     *offset = buffer->back() + 1;
+    buffer->pop_back();
     *n = check.getWithCheck(*n);
     return visit(n, offset, buffer);
   }
-- 
2.43.0


From cd35f084f51b40e8ec177a11f2c9a235ae30b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 04/71] fix: Trie::remove of an absent word does not read past
 its array

---
 src/string_utils/Trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index e73383a..bad05dc 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -213,7 +213,7 @@ bool Trie::remove_(const std::string& word) {
   for (int i : adapter) {
     ind++;
     int next = base.get(n) + i;
-    if (check.get(next) != n) return false;
+    if (check.getWithCheck(next) != n) return false;
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
-- 
2.43.0


From c544dd7a0606466df2799493eace5ac345e05e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 05/71] fix: Trie supports custom alphabets of more than 26
 characters

Child codes above 27 were never visited when relocating a node or iterating,
so words of larger custom alphabets were lost.
---
 src/include/string_utils/Trie.h | 2 ++
 src/string_utils/Trie.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9a38c85..9cd846f 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -135,6 +135,8 @@ class Trie {
   private_::AutoArray<std::string, 0> tail{""};
   int pos;
   static constexpr char endChar = '\001';
+  // largest value a mapChar function can return, one per `char` value
+  static constexpr int maxCode = 256;
   int (*mapChar)(char);
   char (*mapInt)(int);
   std::queue<int> tailList;
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index bad05dc..f4b5488 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -77,7 +77,7 @@ bool Trie::retrieve(const std::string& word) {
 }
 
 bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
-  for (; *offset < 28; (*offset)++) {
+  for (; *offset <= maxCode; (*offset)++) {
     int next = base.getWithCheck(*n) + *offset;
     if (check.getWithCheck(next) != *n) continue;
     buffer->push_back(*offset);
@@ -258,7 +258,7 @@ inline int Trie::checkAvailable(int i) {
 inline std::vector<int> Trie::outArcs(int n) {
   std::vector<int> rtn;
   int base_n = base.get(n);
-  for (int i = 1; i < 28; i++) {
+  for (int i = 1; i <= maxCode; i++) {
     if (check.getWithCheck(base_n + i) == n) rtn.push_back(i);
   }
   return rtn;
-- 
2.43.0


From 792fa773eabc2cef92162778d1b99ea37a6083f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:43 +0000
Subject: [PATCH 06/71] fix: each Trie uses its own character mapping

The mapping was kept in a static member, so constructing a Trie changed the
mapping of every existing one.
---
 src/include/string_utils/Trie.h | 22 +++++++++++++---------
 src/string_utils/Trie.cpp       | 12 ++++--------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/include/string_utils/Trie.h b/src/include/string_utils/Trie.h
index 9cd846f..e0fb09a 100644
--- a/src/include/string_utils/Trie.h
+++ b/src/include/string_utils/Trie.h
@@ -157,23 +157,24 @@ class Trie {
   /// \cond NODOC
   class StringAdapter {
    public:
-    explicit StringAdapter(const std::string& str) : underlying(str) {}
-    static int (*mapChar)(char);
+    StringAdapter(const std::string& str, int (*mapChar)(char))
+        : underlying(str), mapChar_(mapChar) {}
 
    private:
     const std::string& underlying;
+    int (*mapChar_)(char);
 
    public:
     class iterator : public std::iterator<std::input_iterator_tag, const int> {
      public:
-      explicit iterator(const std::string* str) : iterator(str, 0) {}
-      iterator(const std::string* str, std::size_t index)
-          : index_(index), str_(str) {}
-      iterator(const iterator& iter) : index_(iter.index_), str_(iter.str_) {}
+      iterator(const std::string* str, std::size_t index, int (*mapChar)(char))
+          : index_(index), str_(str), mapChar_(mapChar) {}
+      iterator(const iterator& iter)
+          : index_(iter.index_), str_(iter.str_), mapChar_(iter.mapChar_) {}
 
       int operator*() const {
         auto ch = (*str_)[index_];
-        return mapChar(ch);
+        return mapChar_(ch);
       }
 
       iterator& operator++() {
@@ -190,9 +191,12 @@ class Trie {
      private:
       std::size_t index_;
       const std::string* str_;
+      int (*mapChar_)(char);
     };
-    iterator begin() { return iterator(&underlying); }
-    iterator end() { return iterator(&underlying, underlying.size()); }
+    iterator begin() { return iterator(&underlying, 0, mapChar_); }
+    iterator end() {
+      return iterator(&underlying, underlying.size(), mapChar_);
+    }
   };
   /// \endcond
  public:
diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index f4b5488..89dad21 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -49,21 +49,17 @@ std::string commonPrefix(const std::string& string1,
 }
 }  // namespace
 
-// Used to fix undefined symbols error
-int (*Trie::StringAdapter::mapChar)(char) = nullptr;
-
 Trie::Trie(int (*mapChar)(char), char (*mapInt)(int)) {
   base.set(0, 0);
   pos = 0;
   this->mapChar = mapChar;
   this->mapInt = mapInt;
-  StringAdapter::mapChar = mapChar;
   size_ = 0;
 }
 
 bool Trie::retrieve(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -107,7 +103,7 @@ bool Trie::visit(int* n, int* offset, std::vector<int>* buffer) {
 
 void Trie::insert_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
@@ -121,7 +117,7 @@ void Trie::insert_(const std::string& word) {
       auto prefix = commonPrefix(word.substr(ind), tail_temp);
       int prefix_length = prefix.size();
 
-      for (int j : StringAdapter(prefix)) {
+      for (int j : StringAdapter(prefix, mapChar)) {
         int available = checkAvailable(j);
         base.set(next, available);
         check.set(available + j, next);
@@ -208,7 +204,7 @@ void Trie::insert_(const std::string& word) {
 
 bool Trie::remove_(const std::string& word) {
   int n = 0;
-  StringAdapter adapter(word);
+  StringAdapter adapter(word, mapChar);
   int ind = 0;
   for (int i : adapter) {
     ind++;
-- 
2.43.0


From ed615467bd20afa775db9ce5960f4796d9ccd4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 07/71] fix: kmpSearch handles empty patterns and starts past
 the end

The next table of an empty pattern was written out of bounds, and a start
above INT_MAX became a negative index.
---
 src/algorithm/kmp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algorithm/kmp.cpp b/src/algorithm/kmp.cpp
index cfa6286..2d161ca 100644
--- a/src/algorithm/kmp.cpp
+++ b/src/algorithm/kmp.cpp
@@ -6,6 +6,8 @@
 namespace cuhksz {
 int kmpSearch(const std::string& base, const std::string& pattern,
               std::size_t start) {
+  if (start > base.size()) return -1;
+  if (pattern.empty()) return start;
   // generate next table
   int psize = pattern.size();
   std::unique_ptr<int[]> next = std::unique_ptr<int[]>(new int[psize]);
-- 
2.43.0


From d3a092f9b1a816cc0d8b2d53197a1ab249420f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 08/71] fix: stringCast of text without a value is not
 indeterminate

---
 src/include/string_utils/StringCast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 470be21..52a35ce 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -21,7 +21,7 @@ class stringCast {
   explicit stringCast(const std::string &from) : m_from(from) {}
   operator T() const {
     std::stringstream strStream(m_from);
-    T casted;
+    T casted = T();
     try {
       strStream >> casted;
     } catch (std::exception &e) {
-- 
2.43.0


From 96559b2807d1876ad213700ca29dc13f7d3cf490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 09/71] fix: stringCast keeps its own copy of the text

A stringCast made from a temporary read a destroyed string when converted
later.
---
 src/include/string_utils/StringCast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/string_utils/StringCast.h b/src/include/string_utils/StringCast.h
index 52a35ce..fb823a5 100644
--- a/src/include/string_utils/StringCast.h
+++ b/src/include/string_utils/StringCast.h
@@ -33,7 +33,7 @@ class stringCast {
   T operator()() const { return static_cast<T>(*this); }
 
  private:
-  const std::string &m_from;
+  const std::string m_from;
 };
 }  // namespace cuhksz
 #endif  // CUHKSZ_STRINGUTILS_STRINGCAST
-- 
2.43.0


From 21c4d7fc064a288848d209149aa0c10496dc8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 10/71] fix: base64Decode keeps zero bytes

---
 src/base64/base64_functions.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/base64/base64_functions.cpp b/src/base64/base64_functions.cpp
index e110d2a..5b4007d 100644
--- a/src/base64/base64_functions.cpp
+++ b/src/base64/base64_functions.cpp
@@ -61,15 +61,11 @@ std::string base64Decode(std::string decodeStr) {
       binaryDecodeStr += std::bitset<6>(std::string{codes}.find(c)).to_string();
     }
   }
-  if (binaryDecodeStr.length() % 8) {
-    binaryDecodeStr += std::string(8 - binaryDecodeStr.length() % 8, '0');
-  }
-  for (std::size_t i = 0; i < binaryDecodeStr.length(); i += 8) {
+  // the bits after the last whole byte are padding
+  for (std::size_t i = 0; i + 8 <= binaryDecodeStr.length(); i += 8) {
     int index =
         (int)std::bitset<8>(binaryDecodeStr.substr((uint64_t)i, 8)).to_ulong();
-    if (index != 0) {
-      decoded << char(index);
-    }
+    decoded << char(index);
   }
   return decoded.str();
 }
-- 
2.43.0


From 48116d123617a7183e939099cbd5ced19b958f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:33 +0000
Subject: [PATCH 11/71] fix: urlDecode does not read past a truncated escape

---
 src/network/network_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/network_functions.cpp b/src/network/network_functions.cpp
index d10efba..6b16847 100644
--- a/src/network/network_functions.cpp
+++ b/src/network/network_functions.cpp
@@ -51,7 +51,7 @@ std::string urlDecode(const std::string str) {
   for (size_t i = 0; i < length; i++) {
     if (str[i] == '+') {
       escaped << ' ';
-    } else if (str[i] == '%') {
+    } else if (str[i] == '%' && i + 2 < length) {
       int high = hexToInt(str[++i]);
       int low = hexToInt(str[++i]);
 
-- 
2.43.0


From 31a47ed74ddc6e8d5cd2b0e17122a9f8f1adb44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 12/71] fix: loadJSON rejects unterminated strings instead of
 reading past the text

---
 src/json/Json.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index efeda29..4f38dc7 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -88,7 +88,8 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
 JSONObject parse_string(const std::string &str, size_t &offset) {
   JSONObject String;
   std::string val;
-  for (char c = str[++offset]; c != '\"'; c = str[++offset]) {
+  for (++offset; offset < str.size() && str[offset] != '\"'; ++offset) {
+    char c = str[offset];
     if (c == '\\') {
       switch (str[++offset]) {
         case '\"':
@@ -138,6 +139,9 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
       val += c;
     }
   }
+  if (offset >= str.size()) {
+    error("String: Expected closing quote, nothing remaining.");
+  }
   ++offset;
   String = val;
   return String;
-- 
2.43.0


From 2be11a38f258a84d1ea1a29a17727fb901217e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 13/71] fix: loadJSON reads exponents and numbers at any
 position

An unsigned exponent lost its first digit, a number with an exponent was only
accepted at the end of the text, and a number at the end of the text left the
offset past the terminator.
---
 src/json/Json.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 4f38dc7..2172616 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -1,6 +1,5 @@
 #include "json/Json.h"
 
-#include <cmath>
 #include <deque>
 #include <map>
 #include <string>
@@ -152,9 +151,8 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
   std::string val, exp_str;
   char c;
   bool isDouble = false;
-  int exp = 0;
   while (true) {
-    c = str[offset++];
+    c = str[offset];
     if ((c == '-') || (c >= '0' && c <= '9')) {
       val += c;
     } else if (c == '.') {
@@ -163,15 +161,19 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
     } else {
       break;
     }
+    offset++;
   }
   if (c == 'E' || c == 'e') {
+    offset++;
     if (offset == str.length()) {
       error("Number: Expected a number for exponent, nothing remaining.");
     }
-    c = str[offset++];
-    if (c == '-') {
-      exp_str += '-';
+    c = str[offset];
+    if (c == '-' || c == '+') {
+      exp_str += c;
+      offset++;
     }
+    size_t digits = offset;
     while (true) {
       c = str[offset];
 
@@ -185,16 +187,18 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
       }
       offset++;
     }
-    exp = cuhksz::stringCast<double>(exp_str);
+    if (offset == digits) {
+      error("Number: Expected a number for exponent, found '" +
+            std::string(1, c) + "'");
+    }
   } else if (!isspace(c) && c != ',' && c != ']' && c != '}' && c != 0) {
     error("Number: unexpected character '" + std::string(1, c) + "'");
   }
-  if (c != 0) --offset;
 
-  if (isDouble)
-    Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
-  else if (!exp_str.empty())
-    Number = (double)cuhksz::stringCast<double>(val) * std::pow(10, exp);
+  if (!exp_str.empty())
+    Number = (double)cuhksz::stringCast<double>(val + "e" + exp_str);
+  else if (isDouble)
+    Number = (double)cuhksz::stringCast<double>(val);
   else
     Number = (int)cuhksz::stringCast<int>(val);
   return Number;
-- 
2.43.0


From 5aa73fda75072ef657f69aa06434e9c0db5d23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 14/71] fix: assigning a JSONObject from itself or from its own
 part

---
 src/json/Json.cpp | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 2172616..e17611b 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -3,6 +3,7 @@
 #include <deque>
 #include <map>
 #include <string>
+#include <utility>
 
 #include "string_utils/StringCast.h"
 #include "utils/error.h"
@@ -331,33 +332,15 @@ JSONObject::JSONObject(const JSONObject &src) {
 }
 
 JSONObject &JSONObject::operator=(JSONObject &&src) {
-  clearData();
-  Data = src.Data;
-  objType = src.objType;
-  src.Data.Map = nullptr;
-  src.objType = Type::Null;
+  // src may be this object or a part of it
+  JSONObject old(std::move(src));
+  std::swap(Data, old.Data);
+  std::swap(objType, old.objType);
   return *this;
 }
 
 JSONObject &JSONObject::operator=(const JSONObject &src) {
-  clearData();
-  switch (src.objType) {
-    case Type::Object:
-      Data.Map = new std::map<std::string, JSONObject>(src.Data.Map->begin(),
-                                                       src.Data.Map->end());
-      break;
-    case Type::Array:
-      Data.List = new std::deque<JSONObject>(src.Data.List->begin(),
-                                             src.Data.List->end());
-      break;
-    case Type::String:
-      Data.String = new std::string(*src.Data.String);
-      break;
-    default:
-      Data = src.Data;
-  }
-  objType = src.objType;
-  return *this;
+  return *this = JSONObject(src);
 }
 
 JSONObject &JSONObject::operator[](const char key[]) {
-- 
2.43.0


From 89cb4a3d36e1cfa79f31a258be5af7595fc702aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 15/71] fix: JSON object keys are stored as they are and
 escaped when dumped

Keys set through the API were dumped without escapes, and loaded keys were
stored in their escaped spelling.
---
 src/json/Json.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index e17611b..94e4eab 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -11,6 +11,7 @@
 namespace cuhksz {
 namespace {
 JSONObject parse_next(const std::string &str, size_t &offset);
+std::string parse_string(const std::string &str, size_t &offset);
 
 void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
@@ -27,7 +28,12 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   }
 
   while (true) {
-    JSONObject Key = parse_next(str, offset);
+    skip_whitespaces(str, offset);
+    if (str[offset] != '\"') {
+      error("Object: Expected string key, found '" +
+            std::string(1, str[offset]) + "'");
+    }
+    std::string key = parse_string(str, offset);
     skip_whitespaces(str, offset);
     if (str[offset] != ':') {
       error("Object: Expected colon, found '" + std::string(1, str[offset]) +
@@ -36,7 +42,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
     }
     skip_whitespaces(str, ++offset);
     JSONObject Value = parse_next(str, offset);
-    Object[Key.toString()] = Value;
+    Object[key] = Value;
 
     skip_whitespaces(str, offset);
     if (str[offset] == ',') {
@@ -85,8 +91,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   return Array;
 }
 
-JSONObject parse_string(const std::string &str, size_t &offset) {
-  JSONObject String;
+std::string parse_string(const std::string &str, size_t &offset) {
   std::string val;
   for (++offset; offset < str.size() && str[offset] != '\"'; ++offset) {
     char c = str[offset];
@@ -143,8 +148,7 @@ JSONObject parse_string(const std::string &str, size_t &offset) {
     error("String: Expected closing quote, nothing remaining.");
   }
   ++offset;
-  String = val;
-  return String;
+  return val;
 }
 
 JSONObject parse_number(const std::string &str, size_t &offset) {
@@ -255,7 +259,8 @@ JSONObject::JSONObject() : Data(), objType(Type::Null) {}
 JSONObject::JSONObject(std::initializer_list<JSONObject> list) : JSONObject() {
   setType(Type::Object);
   for (auto i = list.begin(), e = list.end(); i != e; ++i, ++i)
-    operator[](i->toString()) = *std::next(i);
+    operator[](i->objType == Type::String ? *i->Data.String : "") =
+        *std::next(i);
 }
 
 JSONObject::JSONObject(JSONObject &&other)
@@ -430,7 +435,8 @@ std::string JSONObject::dump(int depth, std::string tab) const {
       bool skip = true;
       for (auto &p : *Data.Map) {
         if (!skip) s += ",\n";
-        s += (pad + "\"" + p.first + "\" : " + p.second.dump(depth + 1, tab));
+        s += (pad + "\"" + jsonEscape(p.first) + "\" : " +
+              p.second.dump(depth + 1, tab));
         skip = false;
       }
       s += ("\n" + pad.erase(0, 2) + "}");
-- 
2.43.0


From 17cf34d28497e1d56c210ce9820904c7876009e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 16/71] fix: JSONObject rejects negative array indexes

---
 src/json/Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 94e4eab..c239a81 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -360,6 +360,7 @@ JSONObject &JSONObject::operator[](const std::string &key) {
 }
 
 JSONObject &JSONObject::operator[](int index) {
+  if (index < 0) error("Array: Index out of range");
   setType(Type::Array);
   if (index >= (int)Data.List->size()) Data.List->resize((size_t)(index + 1));
   return Data.List->operator[]((size_t)index);
-- 
2.43.0


From 9dba514530ecdaad56a61bc8fe79ee0768f41332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 17/71] fix: const JSONObject::at does not modify the object or
 read another type's data

---
 src/json/Json.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index c239a81..cb4e489 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -2,6 +2,7 @@
 
 #include <deque>
 #include <map>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -369,12 +370,16 @@ JSONObject &JSONObject::operator[](int index) {
 JSONObject &JSONObject::at(const std::string &key) { return operator[](key); }
 
 const JSONObject &JSONObject::at(const std::string &key) const {
-  return Data.Map->operator[](key);
+  if (!hasKey(key)) throw std::out_of_range("JSONObject::at: no such key");
+  return Data.Map->find(key)->second;
 }
 
 JSONObject &JSONObject::at(unsigned index) { return operator[](index); }
 
 const JSONObject &JSONObject::at(unsigned index) const {
+  if (objType != Type::Array) {
+    throw std::out_of_range("JSONObject::at: not an array");
+  }
   return Data.List->at(index);
 }
 
-- 
2.43.0


From 9479dbd54a9369e4c43f7f5f71e8488412384cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 18/71] fix: JSONIterator const begin/end recursed forever

---
 src/include/json/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 64967c3..808686a 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -28,8 +28,12 @@ class JSONIterator {
   typename Container::iterator end() {
     return object ? object->end() : typename Container::iterator();
   }
-  typename Container::const_iterator begin() const { return begin(); }
-  typename Container::const_iterator end() const { return end(); }
+  typename Container::const_iterator begin() const {
+    return object ? object->begin() : typename Container::iterator();
+  }
+  typename Container::const_iterator end() const {
+    return object ? object->end() : typename Container::iterator();
+  }
 };
 
 /**
-- 
2.43.0


From 58843523bf0ade48e98a233f2a6cf022849fd0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 19/71] fix: assigning nullptr to a JSONObject makes it null

It selected the string overload and constructed a string from a null pointer.
---
 src/include/json/Json.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/json/Json.h b/src/include/json/Json.h
index 808686a..514d8c0 100644
--- a/src/include/json/Json.h
+++ b/src/include/json/Json.h
@@ -257,6 +257,15 @@ class JSONObject {
     return *this;
   }
 
+  /**
+   * Set the JSONObject to null.
+   * @return *this
+   */
+  JSONObject &operator=(std::nullptr_t) {
+    setType(Type::Null);
+    return *this;
+  }
+
   /**
    * Look up a value with specific key in a map object. Will convert itself to
    * an Object if not before.
-- 
2.43.0


From 9975da40d0f982351d31311bb18b7f5c5f7b02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 20/71] fix: BigNum copies all its digits

A copy left the digits above its length uninitialised, and adding a longer
number to it read them.
---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 9890803..439290a 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -43,7 +43,7 @@ class BigNum {
   BigNum(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
   }
 
   ~BigNum() {}
@@ -52,7 +52,7 @@ class BigNum {
   BigNum& operator=(const BigNum& src) {
     sign = src.sign;
     len = src.len;
-    std::memcpy(elem, src.elem, len * sizeof(int));
+    std::memcpy(elem, src.elem, MAX_SIZE * sizeof(int));
     return *this;
   }
 
-- 
2.43.0


From 3077e344df05d1be8bb9095eb30e002bb64ce1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 21/71] fix: BigNum compares absolute values without the sign

The sum of a negative and a positive number, or the difference of two
negative numbers, subtracted in the wrong order.
---
 src/include/math_utils/BigNum.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 439290a..65c65e7 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -238,9 +238,10 @@ class BigNum {
 
   friend int cmp(const BigNum& a, const BigNum& b, bool isAbs = false) {
     if (!isAbs && a.sign != b.sign) return a.sign > b.sign ? 1 : -1;
-    if (a.len != b.len) return a.len > b.len ? a.sign : -a.sign;
+    int sign = isAbs ? 1 : a.sign;
+    if (a.len != b.len) return a.len > b.len ? sign : -sign;
     for (int i = a.len - 1; i >= 0; i--)
-      if (a[i] != b[i]) return a[i] > b[i] ? a.sign : -a.sign;
+      if (a[i] != b[i]) return a[i] > b[i] ? sign : -sign;
     return 0;
   }
 
-- 
2.43.0


From f48620ad0738fac2607e7c984bdcf6756da8683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 22/71] fix: BigNum results that use the full capacity

The carry was read and written past the last digit, so a result with
MAX_SIZE digits got a wrong length.
---
 src/include/math_utils/BigNum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 65c65e7..65e80cc 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -252,9 +252,9 @@ class BigNum {
     for (int i = 0; i < ret.len; i++)
       if (ret[i] >= BigNum::base) {
         ret[i] -= BigNum::base;
-        ret[i + 1]++;
+        if (i + 1 < MAX_SIZE) ret[i + 1]++;
       }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
@@ -288,10 +288,10 @@ class BigNum {
         ret[i + j] += a[i] * b[j];
       }
     for (int i = 0; i < ret.len; i++) {
-      ret[i + 1] += ret[i] / BigNum::base;
+      if (i + 1 < MAX_SIZE) ret[i + 1] += ret[i] / BigNum::base;
       ret[i] %= BigNum::base;
     }
-    if (ret[ret.len]) ret.len++;
+    if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
     ret.sign = a.sign;
     return ret;
   }
-- 
2.43.0


From 43a1fa7dfde660b51013d5b49751ac499a8b6998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 23/71] fix: BigNum products have the product of the signs

The sign of the second factor was ignored; multiplying in place by a
BigNum did not compile.
---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 65e80cc..f5f2303 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -196,7 +196,7 @@ class BigNum {
     return ret;
   }
 
-  BigNum& operator*=(const BigNum& other) const {
+  BigNum& operator*=(const BigNum& other) {
     *this = mul(*this, other);
     return *this;
   }
@@ -292,7 +292,7 @@ class BigNum {
       ret[i] %= BigNum::base;
     }
     if (ret.len < MAX_SIZE && ret[ret.len]) ret.len++;
-    ret.sign = a.sign;
+    ret.sign = a.sign * b.sign;
     return ret;
   }
 
-- 
2.43.0


From 3b762b7908cd58bd4c523577acdb08824bfe441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 24/71] fix: BigNum has one zero and prints it as 0

Zero could be negative or have a length ("0", "007", -a), which compared
unequal to the same number, and it printed as an empty text.
---
 src/include/math_utils/BigNum.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index f5f2303..92e460f 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -38,6 +38,8 @@ class BigNum {
     if ((s.size() - (s[0] == '-')) % BigNum::order)
       elem[len++] = std::stoi(
           s.substr((s[0] == '-'), (s.size() - (s[0] == '-')) % BigNum::order));
+    while (len > 0 && !elem[len - 1]) len--;
+    if (len == 0) sign = 1;
   }
 
   BigNum(const BigNum& src) {
@@ -210,7 +212,7 @@ class BigNum {
   // other
   BigNum operator-() const {
     BigNum ret = *this;
-    ret.sign = -ret.sign;
+    if (ret.len > 0) ret.sign = -ret.sign;
     return ret;
   }
 
@@ -305,6 +307,7 @@ class BigNum {
 
   std::string toString() const {
     std::string s;
+    if (len == 0) return "0";
     if (sign < 0) s += "-";
     for (int i = len - 1; i >= 0; i--) s += std::to_string(elem[i]);
     return s;
-- 
2.43.0


From cf1a8f861d925a7bcd2679325f98972064b00903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 25/71] fix: BigNum of the smallest 64-bit integer

---
 src/include/math_utils/BigNum.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 92e460f..98d489e 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -24,8 +24,8 @@ class BigNum {
     len = 0;
     sign = x < 0 ? -1 : 1;
     std::memset(elem, 0, MAX_SIZE * sizeof(int));
-    for (int64_t i = std::abs(x); i; i /= BigNum::base)
-      elem[len++] = i % BigNum::base;
+    for (int64_t i = x; i; i /= BigNum::base)
+      elem[len++] = std::abs((int)(i % BigNum::base));
   }
 
   BigNum(const std::string& s) {
-- 
2.43.0


From 69a5ac9c1994b825a5c9b86d9d0538f623e31d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 26/71] fix: BigNum postfix increment and abs return values

Postfix ++ and -- returned a reference to a local, abs did not compile.
---
 src/include/math_utils/BigNum.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/include/math_utils/BigNum.h b/src/include/math_utils/BigNum.h
index 98d489e..253627a 100644
--- a/src/include/math_utils/BigNum.h
+++ b/src/include/math_utils/BigNum.h
@@ -221,7 +221,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator++(int) {  // postfix ++
+  BigNum operator++(int) {  // postfix ++
     BigNum ret = *this;
     ++(*this);
     return ret;
@@ -232,7 +232,7 @@ class BigNum {
     return *this;
   }
 
-  BigNum& operator--(int) {
+  BigNum operator--(int) {
     BigNum ret = *this;
     --(*this);
     return ret;
@@ -298,12 +298,13 @@ class BigNum {
     return ret;
   }
 
-  BigNum& abs() const {
-    sign = 1;
-    return *this;
+  BigNum abs() const {
+    BigNum ret = *this;
+    ret.sign = 1;
+    return ret;
   }
 
-  friend BigNum& abs(const BigNum& a) { return a.abs(); }
+  friend BigNum abs(const BigNum& a) { return a.abs(); }
 
   std::string toString() const {
     std::string s;
-- 
2.43.0


From 794350999388b8d4af1ccc079b193d599b179bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 27/71] fix: integer minus and divided by a Fraction

---
 src/include/math_utils/Fraction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index 4d97ccd..d726e17 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -56,7 +56,7 @@ class Fraction {
   }
 
   friend Fraction operator-(int value, Fraction const &self) {
-    return self - value;
+    return Fraction(value) - self;
   }
 
   void operator-=(Fraction const &other) {
@@ -87,7 +87,7 @@ class Fraction {
   }
 
   friend Fraction operator/(int value, Fraction const &self) {
-    return self / value;
+    return Fraction(value) / self;
   }
 
   void operator/=(Fraction const &other) {
-- 
2.43.0


From 00eb020ed791168fc456f51e041c5788f7b91f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:36 +0000
Subject: [PATCH 28/71] fix: Fraction::operator/= divides exactly

---
 src/include/math_utils/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/Fraction.h b/src/include/math_utils/Fraction.h
index d726e17..05d5912 100644
--- a/src/include/math_utils/Fraction.h
+++ b/src/include/math_utils/Fraction.h
@@ -91,7 +91,7 @@ class Fraction {
   }
 
   void operator/=(Fraction const &other) {
-    Fraction tmp(numerator / other.numerator, denominator / other.denominator);
+    Fraction tmp(numerator * other.denominator, denominator * other.numerator);
     numerator = tmp.numerator;
     denominator = tmp.denominator;
   }
-- 
2.43.0


From f8810c84694155bfd4c69ef4e76299e13e0789a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 29/71] fix: a new Matrix holds zero values of its element type

Clearing the bytes of a class type (Fraction: 0/0) is not its zero.
---
 src/include/math_utils/Matrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c613792..c439bd3 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -20,8 +20,7 @@ class Matrix {
   Matrix(int n, int m) : row(n), col(m) {
     elem = new ValueType*[row];
     for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
-      std::memset(elem[i], 0, col * sizeof(ValueType));
+      elem[i] = new ValueType[col]();
     }
   }
 
-- 
2.43.0


From 96e8a70249466b5451556ac7ccbaaf686f6e22fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 30/71] fix: Matrix products in place free their old rows once

operator*= freed the rows twice, and both products leaked their result.
---
 src/include/math_utils/Matrix.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index c439bd3..3c7493c 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -68,23 +68,16 @@ class Matrix {
 
   Matrix operator*(const Matrix& other) const {
     assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
+    Matrix ret(row, other.col);
+    for (int i = 0; i < ret.row; i++)
+      for (int j = 0; j < ret.col; j++)
         for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    return *ret;
+          ret[i][j] += (*this)[i][k] * other[k][j];
+    return ret;
   }
 
   Matrix& operator*=(const Matrix& other) {
-    assert(col == other.row);
-    Matrix* ret = new Matrix(row, other.col);
-    for (int i = 0; i < ret->row; i++)
-      for (int j = 0; j < ret->col; j++)
-        for (int k = 0; k < col; k++)
-          (*ret)[i][j] += (*this)[i][k] * other[k][j];
-    clear();
-    *this = *ret;
+    *this = *this * other;
     return *this;
   }
 
-- 
2.43.0


From 8fe978ea4553235c4600406736ce457d0cb1fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 31/71] fix: Matrix powers and identity

pow never squared and recursed forever for exponent 0; idMat could not be
called, and two element types in one program clashed.
---
 src/include/math_utils/Matrix.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 3c7493c..06469e3 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -125,19 +125,19 @@ class Matrix {
     }
   }
 
-  friend Matrix& idMat(int n) {
-    Matrix* ret = new Matrix(n);
-    for (int i = 0; i < n; i++) (*ret)[i][i] = 1;
-    return *ret;
+  static Matrix idMat(int n) {
+    Matrix ret(n);
+    for (int i = 0; i < n; i++) ret[i][i] = 1;
+    return ret;
   }
 
-  friend Matrix& pow(const Matrix& src, unsigned int n) {
-    if (n == 1) {
-      Matrix* ret = new Matrix(src);
-      return *ret;
-    }
+  friend Matrix pow(const Matrix& src, unsigned int n) {
+    assert(src.row == src.col);
+    if (n == 0) return idMat(src.row);
+    if (n == 1) return src;
 
-    Matrix& ret = pow(src, n >> 1);
+    Matrix ret = pow(src, n >> 1);
+    ret *= ret;
     if (n & 1) ret *= src;
     return ret;
   }
-- 
2.43.0


From a36b21d24a6d0497c092bf3ba3c6464425fddbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 32/71] fix: permutation(n, 0) is 1

---
 src/include/math_utils/math_functions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 918a454..0cce698 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -476,9 +476,8 @@ IntType factorial(IntType n) {
 template <typename IntType>
 IntType permutation(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for permutation.");
-  IntType result = n;
-  n--;
-  for (; r > 1; r--, n--) {
+  IntType result = 1;
+  for (; r > 0; r--, n--) {
     result *= n;
   }
   return result;
-- 
2.43.0


From c9195620e86bc82352b9571531dc79de96d5983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 33/71] fix: powers do not square the base after its last use

The unused square overflows (or fails) although the power is representable.
---
 src/include/math_utils/math_functions.h | 4 ++--
 src/math_utils/binary_pow.cpp           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 0cce698..abbcd27 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -422,8 +422,8 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    if (exp != 0) base *= base;
   }
   return result;
 }
@@ -443,8 +443,8 @@ BaseType genericBinaryPow(BaseType base, IntType exp) {
     if (exp % 2 == 1) {
       result *= base;
     }
-    base *= base;
     exp /= 2;
+    if (exp != 0) base *= base;
   }
   return result;
 }
diff --git a/src/math_utils/binary_pow.cpp b/src/math_utils/binary_pow.cpp
index 3536118..53520d7 100644
--- a/src/math_utils/binary_pow.cpp
+++ b/src/math_utils/binary_pow.cpp
@@ -12,8 +12,8 @@ int64_t binaryPow(int64_t base, int exp) {
     if (exp & 1) {  // exp % 2 == 1
       result *= base;
     }
-    base *= base;
     exp >>= 1;  // exp /= 2
+    if (exp) base *= base;
   }
   return result;
 }
-- 
2.43.0


From 0c365d69f5909ee2379f985b204e4bfb051d3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:05 +0000
Subject: [PATCH 34/71] fix: variance of large integers

Squares of elements overflowed int, and subtracting squares lost all digits
of data with a large mean.
---
 src/math_utils/statistics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/math_utils/statistics.cpp b/src/math_utils/statistics.cpp
index cb50fad..51ffb88 100644
--- a/src/math_utils/statistics.cpp
+++ b/src/math_utils/statistics.cpp
@@ -15,11 +15,12 @@ double variance(const double* arr, int size) {
 
 double variance(const int* arr, int size) {
   double sum_square = 0.0;
+  double means = mean(arr, size);
   for (int i = 0; i < size; i++) {
-    sum_square += arr[i] * arr[i];
+    double mean_diff = arr[i] - means;
+    sum_square += mean_diff * mean_diff;
   }
-  double means = mean(arr, size);
-  return sum_square / size - means * means;
+  return sum_square / size;
 }
 
 double stddev(const double* arr, int size) {
-- 
2.43.0


From 1fb40da18683eaf9b10f507535193faa62bd0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:35 +0000
Subject: [PATCH 35/71] fix: lcm does not overflow when its result is
 representable

lcm(60000, 60000) computed 60000 * 60000 in int first.
---
 src/include/math_utils/math_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index abbcd27..6eede49 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -31,7 +31,7 @@ auto gcd(IntType1 a, IntType2 b) ->
 
 /**
   Least common multiple function.
-  The result is simply calculated by `a * b / gcd(a, b)`. Parameters `a` and `b`
+  The result is simply calculated by `a / gcd(a, b) * b`. Parameters `a` and `b`
   should be both integers, and the return type is the more precise type in `a`
   and `b`.
   @return If one of the parameter is 0, returns 0. Otherwise returns
@@ -42,7 +42,7 @@ auto gcd(IntType1 a, IntType2 b) ->
 template <typename IntType1, typename IntType2>
 auto lcm(IntType1 a, IntType2 b) ->
     typename std::common_type<IntType1, IntType2>::type {
-  return a * b / gcd(a, b);
+  return a / gcd(a, b) * b;
 }
 
 /**
-- 
2.43.0


From 0f7c0a6985350bdbc0b3b7e8aaf7b34a4c3ce340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:04 +0000
Subject: [PATCH 36/71] fix: binomial compiles for integer types narrower than
 int

---
 src/include/math_utils/math_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/math_utils/math_functions.h b/src/include/math_utils/math_functions.h
index 6eede49..f04b15a 100644
--- a/src/include/math_utils/math_functions.h
+++ b/src/include/math_utils/math_functions.h
@@ -497,7 +497,7 @@ template <typename IntType>
 IntType binomial(IntType n, IntType r) {
   if (n < 0 || r < 0 || r > n) error("Arguments invalid for binomial.");
   if (r == 0) return 1;
-  if (r > n / 2) return binomial(n, n - r);
+  if (r > n / 2) return binomial<IntType>(n, n - r);
   std::unique_ptr<IntType[]> combination(new IntType[r]);
   for (int i = 0; i < r; i++) combination[i] = 1;
   for (int i = 0; i < n - r; i++) {
-- 
2.43.0


From 68f56a9eebeb1075ecf07ce85472d90752b35b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 37/71] fix: SegmentTree leaves do not push flags to children
 they do not have

Updating a leaf wrote past the end of the flag vectors.
---
 src/include/graph/SegmentTree.h | 54 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 1ef57a7..5881c9c 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -80,21 +80,23 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
     sumVal[o] *= mulFlag[o];
-    if (hasMulFlag[ls]) {
-      mulFlag[ls] *= mulFlag[o];
-    } else {
-      hasMulFlag[ls] = true;
-      mulFlag[ls] = mulFlag[o];
+    if (l != r) {
+      if (hasMulFlag[ls]) {
+        mulFlag[ls] *= mulFlag[o];
+      } else {
+        hasMulFlag[ls] = true;
+        mulFlag[ls] = mulFlag[o];
+      }
+      if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
+
+      if (hasMulFlag[rs]) {
+        mulFlag[rs] *= mulFlag[o];
+      } else {
+        hasMulFlag[rs] = true;
+        mulFlag[rs] = mulFlag[o];
+      }
+      if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
     }
-    if (hasAddFlag[ls]) addFlag[ls] *= mulFlag[o];
-
-    if (hasMulFlag[rs]) {
-      mulFlag[rs] *= mulFlag[o];
-    } else {
-      hasMulFlag[rs] = true;
-      mulFlag[rs] = mulFlag[o];
-    }
-    if (hasAddFlag[rs]) addFlag[rs] *= mulFlag[o];
   }
 
   if (hasAddFlag[o]) {
@@ -102,17 +104,19 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     minVal[o] += addFlag[o];
     maxVal[o] += addFlag[o];
     sumVal[o] += addFlag[o] * (r - l + 1);
-    if (hasAddFlag[ls]) {
-      addFlag[ls] += addFlag[o];
-    } else {
-      hasAddFlag[ls] = true;
-      addFlag[ls] = addFlag[o];
-    }
-    if (hasAddFlag[rs]) {
-      addFlag[rs] += addFlag[o];
-    } else {
-      hasAddFlag[rs] = true;
-      addFlag[rs] = addFlag[o];
+    if (l != r) {
+      if (hasAddFlag[ls]) {
+        addFlag[ls] += addFlag[o];
+      } else {
+        hasAddFlag[ls] = true;
+        addFlag[ls] = addFlag[o];
+      }
+      if (hasAddFlag[rs]) {
+        addFlag[rs] += addFlag[o];
+      } else {
+        hasAddFlag[rs] = true;
+        addFlag[rs] = addFlag[o];
+      }
     }
   }
 }
-- 
2.43.0


From 431b3b57e2a2c7bad8e438c7f61d0b16277da62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 38/71] fix: SegmentTree exchanges minimum and maximum for
 negative factors

---
 src/include/graph/SegmentTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index 5881c9c..f7580e7 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -79,6 +79,7 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
     hasMulFlag[o] = false;
     minVal[o] *= mulFlag[o];
     maxVal[o] *= mulFlag[o];
+    if (maxVal[o] < minVal[o]) std::swap(minVal[o], maxVal[o]);
     sumVal[o] *= mulFlag[o];
     if (l != r) {
       if (hasMulFlag[ls]) {
-- 
2.43.0


From 54644aeb19237e0142eaebfb13e11b92d45e956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 39/71] fix: SegmentTree queries of larger ranges see updates
 of smaller ones

An update did not refresh the nodes above the ones it reached.
---
 src/include/graph/SegmentTree.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index f7580e7..caf2c4d 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -36,6 +36,7 @@ class SegmentTree {
   int size;
 
   void update(int o, int l, int r);
+  void pullUp(int o, int l, int r);
 };
 
 template <typename ValueType>
@@ -122,6 +123,17 @@ void SegmentTree<ValueType>::update(int o, int l, int r) {
   }
 }
 
+template <typename ValueType>
+void SegmentTree<ValueType>::pullUp(int o, int l, int r) {
+  int mid = (l + r) >> 1;
+  int ls = o << 1, rs = (o << 1) | 1;
+  update(ls, l, mid);
+  update(rs, mid + 1, r);
+  minVal[o] = std::min(minVal[ls], minVal[rs]);
+  maxVal[o] = std::max(maxVal[ls], maxVal[rs]);
+  sumVal[o] = sumVal[ls] + sumVal[rs];
+}
+
 template <typename ValueType>
 ValueType SegmentTree<ValueType>::queryMax(int lv, int rv) {
   return queryMax(lv, rv, 0, size - 1, 1);
@@ -193,6 +205,7 @@ void SegmentTree<ValueType>::addInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) addInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) addInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 template <typename ValueType>
@@ -213,6 +226,7 @@ void SegmentTree<ValueType>::mulInterval(int lv, int rv, ValueType x, int l,
   int ls = o << 1, rs = (o << 1) | 1;
   if (lv <= mid) mulInterval(lv, rv, x, l, mid, ls);
   if (rv > mid) mulInterval(lv, rv, x, mid + 1, r, rs);
+  pullUp(o, l, r);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From d9d5678e9be0d5fb76944350f0d435f6041907b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 40/71] fix: BST::erase keeps the left subtree of a node
 without a right one

---
 src/graph/BST.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index ea52e25..e581053 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -86,7 +86,7 @@ void BST::erase(BSTNode* x) {
     root = x->ch[1];
     root->fa = nullptr;
   } else if (x->ch[0] != nullptr && x->ch[1] == nullptr) {
-    root = x->ch[1];
+    root = x->ch[0];
     root->fa = nullptr;
   } else {
     root = pre(x);
-- 
2.43.0


From 4644f584a37f579062cfbb6d495e56e401b8420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 41/71] fix: BST::erase updates the parents of moved nodes and
 unlinks the erased one

The subtrees of a node with two children kept pointing to the erased node,
and inserting an erased node again brought its old subtrees with it.
---
 src/graph/BST.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index e581053..651f0c4 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -98,7 +98,10 @@ void BST::erase(BSTNode* x) {
     root->fa = nullptr;
     root->ch[0] = x->ch[0];
     root->ch[1] = x->ch[1];
+    if (root->ch[0] != nullptr) root->ch[0]->fa = root;
+    root->ch[1]->fa = root;
   }
+  x->ch[0] = x->ch[1] = x->fa = nullptr;
 }
 
 BSTNode* BST::find(int k) {
-- 
2.43.0


From 896db77383c493f01fd55ef413de0872b93dde88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 42/71] fix: BST::pre and BST::suf find neighbours above the
 node

They looked only into the subtree of the node and missed a predecessor or
successor among its ancestors.
---
 src/graph/BST.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/BST.cpp b/src/graph/BST.cpp
index 651f0c4..6504222 100644
--- a/src/graph/BST.cpp
+++ b/src/graph/BST.cpp
@@ -43,6 +43,7 @@ void BST::splay(BSTNode* x) {
 }
 
 BSTNode* BST::pre(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[0];
   if (cur == nullptr) return nullptr;
   while (cur->ch[1] != nullptr) cur = cur->ch[1];
@@ -50,6 +51,7 @@ BSTNode* BST::pre(BSTNode* x) {
 }
 
 BSTNode* BST::suf(BSTNode* x) {
+  splay(x);
   BSTNode* cur = x->ch[1];
   if (cur == nullptr) return nullptr;
   while (cur->ch[0] != nullptr) cur = cur->ch[0];
-- 
2.43.0


From 6f92a4cde9191ced22b662bd56ce3d7c26663d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 43/71] fix: Tree::LCA does not read ancestors above the root

After a jump the nodes have fewer ancestors than the starting ones.
---
 src/graph/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 8741b26..3481abb 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -43,7 +43,7 @@ Node* Tree::LCA(Node* x, Node* y) {
     x = x->getAncestor(hx - hy);
   if (x == y) return x;
   for (int i = x->ancestor.size() - 1; i >= 0; i--) {
-    if (x->ancestor[i] != y->ancestor[i]) {
+    if (i < (int)x->ancestor.size() && x->ancestor[i] != y->ancestor[i]) {
       x = x->ancestor[i], y = y->ancestor[i];
     }
   }
-- 
2.43.0


From a8c103946f369885c008a84fefd01b984a2aae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 44/71] fix: destroying a Vertex removes its edges from their
 other ends

Neighbours kept pointers to deleted edges and edges to the destroyed vertex.
---
 src/graph/Vertex.cpp       | 19 ++++++++++++++++---
 src/include/graph/Vertex.h |  2 ++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index 26e068e..7815f36 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -38,11 +38,24 @@ Vertex::Vertex(const Vertex& src) {
 }
 
 Vertex::~Vertex() {
+  clearEdges();
+}
+
+void Vertex::clearEdges() {
   for (std::list<Edge*>::iterator it = outEdges.begin(); it != outEdges.end();
-       ++it)
-    if (*it != nullptr) delete *it;
-  inEdges.clear();
+       ++it) {
+    if (*it == nullptr) continue;
+    (*it)->getTo()->inEdges.remove(*it);
+    delete *it;
+  }
   outEdges.clear();
+  for (std::list<Edge*>::iterator it = inEdges.begin(); it != inEdges.end();
+       ++it) {
+    if (*it == nullptr) continue;
+    (*it)->getFrom()->outEdges.remove(*it);
+    delete *it;
+  }
+  inEdges.clear();
 }
 
 Vertex& Vertex::operator=(const Vertex& src) {
diff --git a/src/include/graph/Vertex.h b/src/include/graph/Vertex.h
index e437216..98a0e9b 100644
--- a/src/include/graph/Vertex.h
+++ b/src/include/graph/Vertex.h
@@ -38,6 +38,8 @@ class Vertex {
   bool use;
   int id;
   static int nextVertexID;
+
+  void clearEdges();
 };
 
 }  // namespace cuhksz
-- 
2.43.0


From 0e7c573e33e7f495d56f06f57ff4c46c1b40e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:59 +0000
Subject: [PATCH 45/71] fix: a copied Vertex has edges of its own

Copy and original shared their edges and both deleted them. A copy now has
its own edges from and to the same neighbours.
---
 src/graph/Vertex.cpp       | 37 +++++++++++++++++++++----------------
 src/include/graph/Vertex.h |  1 +
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index 7815f36..c6b2d16 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -27,14 +27,7 @@ Vertex::Vertex(const Vertex& src) {
   val = src.val;
   use = src.use;
   id = Vertex::nextVertexID++;
-  inEdges.clear();
-  outEdges.clear();
-  for (std::list<Edge*>::const_iterator it = src.inEdges.begin();
-       it != src.inEdges.end(); ++it)
-    inEdges.push_back(*it);
-  for (std::list<Edge*>::const_iterator it = src.outEdges.begin();
-       it != src.outEdges.end(); ++it)
-    outEdges.push_back(*it);
+  copyEdges(src);
 }
 
 Vertex::~Vertex() {
@@ -58,17 +51,29 @@ void Vertex::clearEdges() {
   inEdges.clear();
 }
 
+void Vertex::copyEdges(const Vertex& src) {
+  const std::list<Edge*> srcOut = src.outEdges, srcIn = src.inEdges;
+  for (std::list<Edge*>::const_iterator it = srcOut.begin();
+       it != srcOut.end(); ++it) {
+    if (*it == nullptr) continue;
+    Vertex* to = (*it)->getTo();
+    addEdge(to == &src ? *this : *to, (*it)->getVal());
+    if (!(*it)->isValid()) outEdges.back()->setInvalid();
+  }
+  for (std::list<Edge*>::const_iterator it = srcIn.begin(); it != srcIn.end();
+       ++it) {
+    if (*it == nullptr || (*it)->getFrom() == &src) continue;
+    (*it)->getFrom()->addEdge(*this, (*it)->getVal());
+    if (!(*it)->isValid()) inEdges.back()->setInvalid();
+  }
+}
+
 Vertex& Vertex::operator=(const Vertex& src) {
+  if (this == &src) return *this;
   val = src.val;
   use = src.use;
-  inEdges.clear();
-  outEdges.clear();
-  for (std::list<Edge*>::const_iterator it = src.inEdges.begin();
-       it != src.inEdges.end(); ++it)
-    inEdges.push_back(*it);
-  for (std::list<Edge*>::const_iterator it = src.outEdges.begin();
-       it != src.outEdges.end(); ++it)
-    outEdges.push_back(*it);
+  clearEdges();
+  copyEdges(src);
   return *this;
 }
 
diff --git a/src/include/graph/Vertex.h b/src/include/graph/Vertex.h
index 98a0e9b..d3b56d3 100644
--- a/src/include/graph/Vertex.h
+++ b/src/include/graph/Vertex.h
@@ -40,6 +40,7 @@ class Vertex {
   static int nextVertexID;
 
   void clearEdges();
+  void copyEdges(const Vertex& src);
 };
 
 }  // namespace cuhksz
-- 
2.43.0


From 88e67f27173639051ed71efd9814de22e7dd08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:54 +0000
Subject: [PATCH 46/71] fix: Random::nextInt on ranges wider than the largest
 int

`max - min` overflowed, so that e.g. nextInt(INT_MIN, INT_MAX) returned values
outside the range, and nextInt() overflowed in half of its draws.
---
 src/random/Random.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 15cfbc4..2ad9fd7 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,6 @@
 #include "random/Random.h"
 
+#include <cstdint>
 #include <cstdlib>
 #include <ctime>
 
@@ -11,12 +12,13 @@ Random::Random(int seed) { randomGenerator.seed((std::uint64_t)seed); }
 
 int Random::nextInt(int min, int max) {
   if (max <= min) error("`max` should be larger than `min`");
-  return (int)(randomGenerator() % std::uint64_t(max - min)) + min;
+  std::uint64_t range = std::uint64_t(std::int64_t(max) - min);
+  return (int)(std::int64_t(randomGenerator() % range) + min);
 }
 
 int Random::nextInt() {
-  return (int)(randomGenerator() % (std::uint64_t(intMax) + 1 - intMin)) +
-         intMin;
+  std::uint64_t range = std::uint64_t(intMax) + 1 - intMin;
+  return (int)(std::int64_t(randomGenerator() % range) + intMin);
 }
 
 int Random::nextInt(int max) {
-- 
2.43.0


From 1333b0d4a32fc74daffa1774080bb69bda4e4c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 47/71] fix: Random::nextDouble never returns `max`

The largest draws were rounded to `max`, which is excluded (every second draw
when the range is a few units in the last place wide), and ranges wider than
the largest double gave infinities and NaNs.
---
 src/include/random/Random.h | 1 -
 src/random/Random.cpp       | 8 +++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/random/Random.h b/src/include/random/Random.h
index 53bf8a5..501ff5e 100644
--- a/src/include/random/Random.h
+++ b/src/include/random/Random.h
@@ -85,7 +85,6 @@ class Random {
   std::mt19937_64 randomGenerator;
   static const auto intMax = std::numeric_limits<int>::max();
   static const auto intMin = std::numeric_limits<int>::min();
-  static const auto int64Max = std::numeric_limits<std::uint64_t>::max();
 };
 }  // namespace cuhksz
 
diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 2ad9fd7..1a660a8 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -1,5 +1,6 @@
 #include "random/Random.h"
 
+#include <cmath>
 #include <cstdint>
 #include <cstdlib>
 #include <ctime>
@@ -28,7 +29,12 @@ int Random::nextInt(int max) {
 
 double Random::nextDouble(double min, double max) {
   if (max < min) error("`max` should be larger than or equal to `min`");
-  return (double)randomGenerator() / int64Max * (max - min) + min;
+  // 53 random bits, so that the ratio is exact and below 1
+  double ratio = std::ldexp((double)(randomGenerator() >> 11), -53);
+  double half = max / 2 - min / 2;  // `max - min` may overflow
+  double result = min + ratio * half + ratio * half;
+  // the sum may have been rounded up to `max`
+  return result < max ? result : std::nextafter(max, min);
 }
 
 double Random::nextDouble(double max) {
-- 
2.43.0


From e6f8cc55d1c61fe7586c401560d9b5ea1e017f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 48/71] fix: BinomialDistribution with 30 or more trials

The binomial coefficient was computed in an int, which overflows, and for
hundreds of trials a power underflows; the samples followed another law.
---
 src/include/random/BinomialDistribution.h |  1 +
 src/random/BinomialDistribution.cpp       | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/include/random/BinomialDistribution.h b/src/include/random/BinomialDistribution.h
index 00895ef..c68a230 100644
--- a/src/include/random/BinomialDistribution.h
+++ b/src/include/random/BinomialDistribution.h
@@ -65,6 +65,7 @@ class BinomialDistribution : public Distribution<int> {
   std::unique_ptr<double[]> lookup_table = nullptr;
 
   void init(int n, double p);
+  double probability(int i);
 };
 }  // namespace cuhksz
 
diff --git a/src/random/BinomialDistribution.cpp b/src/random/BinomialDistribution.cpp
index db9727a..824cc83 100644
--- a/src/random/BinomialDistribution.cpp
+++ b/src/random/BinomialDistribution.cpp
@@ -1,7 +1,6 @@
 #include "random/BinomialDistribution.h"
 
 #include <cmath>
-#include "math_utils/math_functions.h"
 #include "utils/error.h"
 
 namespace cuhksz {
@@ -15,15 +14,22 @@ void BinomialDistribution::init(int n, double p) {
   // generate probability lookup table
   lookup_table.reset(new double[n_ + 1]);
   double threshold = 0;
-  double p_complement = 1 - p_;
   for (int i = 0; i < n_; i++) {
-    threshold +=
-        binomial(n_, i) * std::pow(p_, i) * std::pow(p_complement, n_ - i);
+    threshold += probability(i);
     lookup_table[i] = threshold;
   }
   lookup_table[n_] = 1;
 }
 
+double BinomialDistribution::probability(int i) {
+  if (p_ <= 0) return i == 0;
+  if (p_ >= 1) return i == n_;
+  // the binomial coefficient and the powers may not be representable
+  return std::exp(std::lgamma(n_ + 1.0) - std::lgamma(i + 1.0) -
+                  std::lgamma(n_ - i + 1.0) + i * std::log(p_) +
+                  (n_ - i) * std::log1p(-p_));
+}
+
 int BinomialDistribution::next() {
   double rnd = randomGenerator->nextDouble();
   for (int i = 0; i < n_; i++) {
-- 
2.43.0


From 4abaca17fa17252283ba3ae214c77274b8e75452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 49/71] fix: PoissonDistribution::next returns for every lambda

exp(-lambda) is 0 for a lambda above 745 and inexact for one above 700, so the
sum of the probabilities never reached the drawn number.
---
 src/include/random/PoissonDistribution.h |  2 +-
 src/random/PoissonDistribution.cpp       | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/include/random/PoissonDistribution.h b/src/include/random/PoissonDistribution.h
index 26a6e82..989a295 100644
--- a/src/include/random/PoissonDistribution.h
+++ b/src/include/random/PoissonDistribution.h
@@ -52,9 +52,9 @@ class PoissonDistribution : public Distribution<int> {
 
  private:
   double lambda_;
-  double expLambda;
 
   void init(double lambda);
+  int sample(double lambda);
 };
 }  // namespace cuhksz
 
diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index a1c518a..0addab7 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -9,17 +9,27 @@ void PoissonDistribution::init(double lambda) {
     error("Invalid parameter for PoissonDistribution");
   }
   lambda_ = lambda;
-  expLambda = std::exp(-lambda_);
 }
 
 int PoissonDistribution::next() {
+  // exp(-lambda) underflows for a large lambda, so add up samples for its parts
+  const double part = 500;
+  int result = 0;
+  double rest = lambda_;
+  for (; rest > part; rest -= part) result += sample(part);
+  return result + sample(rest);
+}
+
+int PoissonDistribution::sample(double lambda) {
   double rnd = randomGenerator->nextDouble();
   int result = 0;
-  double probability = expLambda;
-  double threshold = expLambda;
+  double probability = std::exp(-lambda);
+  double threshold = probability;
   while (rnd >= threshold) {
     result += 1;
-    probability *= lambda_ / result;
+    probability *= lambda / result;
+    // rounding may keep the sum below `rnd` for ever
+    if (result > lambda && threshold + probability <= threshold) break;
     threshold += probability;
   }
   return result;
-- 
2.43.0


From ae95d7ab1eb5d2605946146510ced77cb433b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 50/71] fix: NegativeBinomialDistribution::next returns for
 every r

The r-th power of p underflows for a large r, so the sum of the probabilities
never reached the drawn number.
---
 .../random/NegativeBinomialDistribution.h     |  3 +--
 src/random/NegativeBinomialDistribution.cpp   | 22 +++++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/include/random/NegativeBinomialDistribution.h b/src/include/random/NegativeBinomialDistribution.h
index c3927f8..e5799fb 100644
--- a/src/include/random/NegativeBinomialDistribution.h
+++ b/src/include/random/NegativeBinomialDistribution.h
@@ -68,9 +68,8 @@ class NegativeBinomialDistribution : public Distribution<int> {
   int r_;
   double p_;
 
-  double pPowr;
-
   void init(int r, double p);
+  int sample(int r);
 };
 }  // namespace cuhksz
 
diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index 6adf7e5..c1720f9 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -1,5 +1,6 @@
 #include "random/NegativeBinomialDistribution.h"
 
+#include <algorithm>
 #include <cmath>
 #include "math_utils/math_functions.h"
 #include "utils/error.h"
@@ -11,19 +12,32 @@ void NegativeBinomialDistribution::init(int r, double p) {
   }
   r_ = r;
   p_ = p;
-  pPowr = genericBinaryPow(p, r);
 }
 
 int NegativeBinomialDistribution::next() {
+  // the power of p underflows for a large r, so add up samples for its parts
+  int part = r_;
+  double logPowr = -r_ * std::log(p_);
+  if (logPowr > 500) part = std::max(1, (int)(r_ * (500 / logPowr)));
+  int result = 0;
+  int rest = r_;
+  for (; rest > part; rest -= part) result += sample(part);
+  return result + sample(rest);
+}
+
+int NegativeBinomialDistribution::sample(int r) {
   double rnd = randomGenerator->nextDouble();
 
   int result = 0;
   double p_complement = 1 - p_;
-  double probability = pPowr;
-  double threshold = pPowr;
+  double probability = genericBinaryPow(p_, r);
+  double threshold = probability;
   while (rnd >= threshold) {
     result += 1;
-    probability *= p_complement * (r_ + result - 1) / result;
+    probability *= p_complement * (r - 1.0 + result) / result;
+    // rounding may keep the sum below `rnd` for ever
+    if (result > r * p_complement / p_ && threshold + probability <= threshold)
+      break;
     threshold += probability;
   }
   return result;
-- 
2.43.0


From e65e4500f61c7dc9befa83375d70893af94bf6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 51/71] fix: GammaDistribution with a shape above the largest
 int

The shape was converted to int, which is undefined above INT_MAX; the samples
then missed the whole part of the shape.
---
 src/random/GammaDistribution.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/random/GammaDistribution.cpp b/src/random/GammaDistribution.cpp
index cb91dd2..6f6361e 100644
--- a/src/random/GammaDistribution.cpp
+++ b/src/random/GammaDistribution.cpp
@@ -18,11 +18,12 @@ void GammaDistribution::init(double k, double theta) {
 
 double GammaDistribution::next() {
   double sum_k = 0;
-  for (int i = 0; i < (int)k_; i++) {
+  double whole = std::floor(k_);
+  for (double i = 0; i < whole; i++) {
     double rnd = 1 - randomGenerator->nextDouble();  // uniform on (0, 1]
     sum_k += std::log(rnd);
   }
-  double delta = k_ - std::floor(k_);
+  double delta = k_ - whole;
 
 // disable gcc's warning for comparing with 0.0
 #pragma GCC diagnostic push
-- 
2.43.0


From f9b1376158aa915dc989286ba1c1c56cfabd5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 52/71] fix: ExponentialDistribution rejects a rate of 0

Its scale is infinite, which GammaDistribution accepts; every sample was inf.
---
 src/include/random/ExponentialDistribution.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/include/random/ExponentialDistribution.h b/src/include/random/ExponentialDistribution.h
index e52f91e..d67aff2 100644
--- a/src/include/random/ExponentialDistribution.h
+++ b/src/include/random/ExponentialDistribution.h
@@ -1,7 +1,10 @@
 #ifndef CUHKSZ_RANDOM_EXPONENTIALDISTRIBUTION
 #define CUHKSZ_RANDOM_EXPONENTIALDISTRIBUTION
 
+#include <cstdlib>
+
 #include "random/GammaDistribution.h"
+#include "utils/error.h"
 namespace cuhksz {
 
 /**
@@ -29,7 +32,7 @@ class ExponentialDistribution : public GammaDistribution {
     @param lambda The rate
   **/
   explicit ExponentialDistribution(double lambda)
-      : GammaDistribution(1.0, 1 / lambda) {}
+      : GammaDistribution(1.0, scale(lambda)) {}
 
   /**
     Construct a Exponential distribution sampler with an existing `Random`
@@ -38,7 +41,7 @@ class ExponentialDistribution : public GammaDistribution {
     @param lambda The rate
   **/
   ExponentialDistribution(Random& r, double lambda)
-      : GammaDistribution(r, 1.0, 1 / lambda) {}
+      : GammaDistribution(r, 1.0, scale(lambda)) {}
 
   virtual ~ExponentialDistribution() {}
 
@@ -46,6 +49,14 @@ class ExponentialDistribution : public GammaDistribution {
     Returns the parameter `lambda`
   **/
   double lambda() { return 1 / GammaDistribution::theta(); }
+
+ private:
+  static double scale(double lambda) {
+    if (lambda <= 0) {
+      error("Invalid parameter for ExponentialDistribution");
+    }
+    return 1 / lambda;
+  }
 };
 }  // namespace cuhksz
 
-- 
2.43.0


From 9cfd13e599a7cced975d63ae7accd84e7dc10148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 53/71] fix: random parameters that are not numbers are
 rejected

NaN passed every parameter check, and the samples were NaN or constant.
---
 src/include/random/ExponentialDistribution.h | 2 +-
 src/random/BernoulliDistribution.cpp         | 2 +-
 src/random/BinomialDistribution.cpp          | 2 +-
 src/random/GammaDistribution.cpp             | 2 +-
 src/random/NegativeBinomialDistribution.cpp  | 2 +-
 src/random/NormalDistribution.cpp            | 4 ++--
 src/random/PoissonDistribution.cpp           | 2 +-
 src/random/Random.cpp                        | 4 ++--
 src/random/StudentTDistribution.cpp          | 2 +-
 src/random/UniformDistribution.cpp           | 2 +-
 10 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/include/random/ExponentialDistribution.h b/src/include/random/ExponentialDistribution.h
index d67aff2..b646911 100644
--- a/src/include/random/ExponentialDistribution.h
+++ b/src/include/random/ExponentialDistribution.h
@@ -52,7 +52,7 @@ class ExponentialDistribution : public GammaDistribution {
 
  private:
   static double scale(double lambda) {
-    if (lambda <= 0) {
+    if (!(lambda > 0)) {
       error("Invalid parameter for ExponentialDistribution");
     }
     return 1 / lambda;
diff --git a/src/random/BernoulliDistribution.cpp b/src/random/BernoulliDistribution.cpp
index cc2b98a..a6f6d37 100644
--- a/src/random/BernoulliDistribution.cpp
+++ b/src/random/BernoulliDistribution.cpp
@@ -3,7 +3,7 @@
 
 namespace cuhksz {
 void BernoulliDistribution::init(double p) {
-  if (p < 0 || p > 1) {
+  if (!(p >= 0 && p <= 1)) {
     error("Invalid parameter for BernoulliDistribution");
   }
   p_ = p;
diff --git a/src/random/BinomialDistribution.cpp b/src/random/BinomialDistribution.cpp
index 824cc83..44ef3b1 100644
--- a/src/random/BinomialDistribution.cpp
+++ b/src/random/BinomialDistribution.cpp
@@ -5,7 +5,7 @@
 
 namespace cuhksz {
 void BinomialDistribution::init(int n, double p) {
-  if (n < 0 || p < 0 || p > 1) {
+  if (n < 0 || !(p >= 0 && p <= 1)) {
     error("Invalid parameter(s) for BinomialDistribution");
   }
   n_ = n;
diff --git a/src/random/GammaDistribution.cpp b/src/random/GammaDistribution.cpp
index 6f6361e..edf23a9 100644
--- a/src/random/GammaDistribution.cpp
+++ b/src/random/GammaDistribution.cpp
@@ -9,7 +9,7 @@
 
 namespace cuhksz {
 void GammaDistribution::init(double k, double theta) {
-  if (k <= 0 || theta <= 0) {
+  if (!(k > 0 && theta > 0)) {
     error("Invalid parameter(s) for GammaDistribution");
   }
   k_ = k;
diff --git a/src/random/NegativeBinomialDistribution.cpp b/src/random/NegativeBinomialDistribution.cpp
index c1720f9..af4467e 100644
--- a/src/random/NegativeBinomialDistribution.cpp
+++ b/src/random/NegativeBinomialDistribution.cpp
@@ -7,7 +7,7 @@
 
 namespace cuhksz {
 void NegativeBinomialDistribution::init(int r, double p) {
-  if (r <= 0 || p <= 0 || p > 1) {
+  if (r <= 0 || !(p > 0 && p <= 1)) {
     error("Invalid parameter(s) for NegativeBinomialDistribution");
   }
   r_ = r;
diff --git a/src/random/NormalDistribution.cpp b/src/random/NormalDistribution.cpp
index 3d3ee18..11fd4a9 100644
--- a/src/random/NormalDistribution.cpp
+++ b/src/random/NormalDistribution.cpp
@@ -5,8 +5,8 @@
 
 namespace cuhksz {
 void NormalDistribution::init(double mean, double stddev) {
-  if (stddev <= 0) {
-    error("Invalid parameter `stddev` for NormalDistribution");
+  if (std::isnan(mean) || !(stddev > 0)) {
+    error("Invalid parameter(s) for NormalDistribution");
   }
   mean_ = mean;
   stddev_ = stddev;
diff --git a/src/random/PoissonDistribution.cpp b/src/random/PoissonDistribution.cpp
index 0addab7..6333dac 100644
--- a/src/random/PoissonDistribution.cpp
+++ b/src/random/PoissonDistribution.cpp
@@ -5,7 +5,7 @@
 
 namespace cuhksz {
 void PoissonDistribution::init(double lambda) {
-  if (lambda <= 0) {
+  if (!(lambda > 0)) {
     error("Invalid parameter for PoissonDistribution");
   }
   lambda_ = lambda;
diff --git a/src/random/Random.cpp b/src/random/Random.cpp
index 1a660a8..7087687 100644
--- a/src/random/Random.cpp
+++ b/src/random/Random.cpp
@@ -28,7 +28,7 @@ int Random::nextInt(int max) {
 }
 
 double Random::nextDouble(double min, double max) {
-  if (max < min) error("`max` should be larger than or equal to `min`");
+  if (!(max >= min)) error("`max` should be larger than or equal to `min`");
   // 53 random bits, so that the ratio is exact and below 1
   double ratio = std::ldexp((double)(randomGenerator() >> 11), -53);
   double half = max / 2 - min / 2;  // `max - min` may overflow
@@ -38,7 +38,7 @@ double Random::nextDouble(double min, double max) {
 }
 
 double Random::nextDouble(double max) {
-  if (max < 0) error("`max` should non-negative");
+  if (!(max >= 0)) error("`max` should non-negative");
   return nextDouble(0.0, max);
 }
 
diff --git a/src/random/StudentTDistribution.cpp b/src/random/StudentTDistribution.cpp
index 74a9745..f8ce301 100644
--- a/src/random/StudentTDistribution.cpp
+++ b/src/random/StudentTDistribution.cpp
@@ -8,7 +8,7 @@
 
 namespace cuhksz {
 void StudentTDistribution::init(double r) {
-  if (r <= 0) {
+  if (!(r > 0)) {
     error("Invalid parameter for StudentTDistribution");
   }
   r_ = r;
diff --git a/src/random/UniformDistribution.cpp b/src/random/UniformDistribution.cpp
index 76fb613..55e6b7b 100644
--- a/src/random/UniformDistribution.cpp
+++ b/src/random/UniformDistribution.cpp
@@ -5,7 +5,7 @@
 namespace cuhksz {
 
 void UniformDistribution::init(double min, double max) {
-  if (min > max) {
+  if (!(min <= max)) {
     error("Invalid parameter(s) for UniformDistribution");
   }
   min_ = min;
-- 
2.43.0


From 79edd577877323c15433ec2c39bfeb1218c1aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 54/71] fix: disToSegment for short and empty segments

The position of the foot was compared with an absolute tolerance, so a point
beyond the end of a short segment got the distance to the whole line, and the
distance to an empty segment was NaN.
---
 src/geometry/Line.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/geometry/Line.cpp b/src/geometry/Line.cpp
index 9611d3d..963392b 100644
--- a/src/geometry/Line.cpp
+++ b/src/geometry/Line.cpp
@@ -2,17 +2,6 @@
 
 #include "geometry/Line.h"
 
-#define EPS 1e-6
-
-namespace {
-
-int dcmp(double x) {
-  if (std::fabs(x) < EPS) return 0;
-  return x > 0 ? 1 : -1;
-}
-
-}  // namespace
-
 namespace cuhksz {
 
 Line::Line(Point<2> A, GVector<2> v) : A(A), v(v) {}
@@ -43,14 +32,12 @@ double disToLine(Point<2> P, Line l) {
 
 double disToSegment(Point<2> P, Line l) {
   GVector<2> v1 = l.v, v2 = P - l.A, v3 = P - l.A - l.v;
-  if (dcmp(v1 * v2) < 0)
+  if (v1 * v2 <= 0)
     return v2.len();
-  else if (dcmp(v1 * v3) > 0)
+  else if (v1 * v3 >= 0)
     return v3.len();
   else
     return std::fabs(cross(v1, v2) / v1.len());
 }
 
 }  // namespace cuhksz
-
-#undef EPS
-- 
2.43.0


From 6e0bd77f36956e4355bfc6cbbf2b6147679ec258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 55/71] fix: a Point can be scaled by its own coordinate

`p *= p[0]` and `p /= p[0]` used the changed coordinate for the others.
---
 src/include/geometry/Point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index de7348c..252c6b7 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -84,7 +84,7 @@ class Point {
     return self * constant;
   }
 
-  Point& operator*=(double const& constant) {
+  Point& operator*=(double const constant) {
     for (int i = 0; i < N; i++) elem[i] *= constant;
     return *this;
   }
@@ -95,7 +95,7 @@ class Point {
     return ret;
   }
 
-  Point& operator/=(double const& constant) {
+  Point& operator/=(double const constant) {
     for (int i = 0; i < N; i++) elem[i] /= constant;
     return *this;
   }
-- 
2.43.0


From ea667c4d73e1f0de90eaa92fe78145e483fad126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:48 +0000
Subject: [PATCH 56/71] fix: Point operators no longer leak their result

---
 src/include/geometry/Point.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/geometry/Point.h b/src/include/geometry/Point.h
index 252c6b7..4cc8e11 100644
--- a/src/include/geometry/Point.h
+++ b/src/include/geometry/Point.h
@@ -46,13 +46,13 @@ class Point {
 
   // TODO: what about init a null Point then assign to elem[i] + other.elem[i]
   Point operator+(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] + other.elem[i];
     return ret;
   }
 
   Point operator-(Point const& other) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] - other.elem[i];
     return ret;
   }
@@ -75,7 +75,7 @@ class Point {
   }
 
   Point operator*(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] * constant;
     return ret;
   }
@@ -90,7 +90,7 @@ class Point {
   }
 
   Point operator/(double const& constant) const {
-    Point& ret = *(new Point);
+    Point ret;
     for (int i = 0; i < N; i++) ret.elem[i] = elem[i] / constant;
     return ret;
   }
-- 
2.43.0


From 2e5a0036eecede77168cd78e54c72e6d004e6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:48 +0000
Subject: [PATCH 57/71] fix: Trie reuses the storage of removed words

---
 src/string_utils/Trie.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_utils/Trie.cpp b/src/string_utils/Trie.cpp
index 89dad21..f657609 100644
--- a/src/string_utils/Trie.cpp
+++ b/src/string_utils/Trie.cpp
@@ -213,6 +213,7 @@ bool Trie::remove_(const std::string& word) {
     n = next;
     if (base.get(n) < -1) {
       if (tail.getWithCheck(-base.get(n) - 2) == word.substr(ind)) {
+        tailList.push(-base.get(n) - 2);
         base.set(n, -1);
         check.set(n, -1);
         return true;
-- 
2.43.0


From 30452323fdb9e2c6ded89d329b9e9b49b4a7e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:01 +0000
Subject: [PATCH 58/71] fix: loadJSON reports nesting beyond 1000 levels
 instead of overflowing the stack

---
 src/json/Json.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index cb4e489..c4131a9 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -11,14 +11,17 @@
 
 namespace cuhksz {
 namespace {
-JSONObject parse_next(const std::string &str, size_t &offset);
+// the parser calls itself for nested values, so their depth has to be limited
+const int maxDepth = 1000;
+
+JSONObject parse_next(const std::string &str, size_t &offset, int depth);
 std::string parse_string(const std::string &str, size_t &offset);
 
 void skip_whitespaces(const std::string &str, size_t &offset) {
   while (isspace(str[offset])) ++offset;
 }
 
-JSONObject parse_object(const std::string &str, size_t &offset) {
+JSONObject parse_object(const std::string &str, size_t &offset, int depth) {
   JSONObject Object = JSONObject::Build(JSONObject::Type::Object);
 
   ++offset;
@@ -42,7 +45,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
       break;
     }
     skip_whitespaces(str, ++offset);
-    JSONObject Value = parse_next(str, offset);
+    JSONObject Value = parse_next(str, offset, depth);
     Object[key] = Value;
 
     skip_whitespaces(str, offset);
@@ -62,7 +65,7 @@ JSONObject parse_object(const std::string &str, size_t &offset) {
   return Object;
 }
 
-JSONObject parse_array(const std::string &str, size_t &offset) {
+JSONObject parse_array(const std::string &str, size_t &offset, int depth) {
   JSONObject Array = JSONObject::Build(JSONObject::Type::Array);
   unsigned index = 0;
 
@@ -74,7 +77,7 @@ JSONObject parse_array(const std::string &str, size_t &offset) {
   }
 
   while (true) {
-    Array[index++] = parse_next(str, offset);
+    Array[index++] = parse_next(str, offset, depth);
     skip_whitespaces(str, offset);
 
     if (str[offset] == ',') {
@@ -232,15 +235,17 @@ JSONObject parse_null(const std::string &str, size_t &offset) {
   return Null;
 }
 
-JSONObject parse_next(const std::string &str, size_t &offset) {
+JSONObject parse_next(const std::string &str, size_t &offset, int depth) {
   char value;
   skip_whitespaces(str, offset);
   value = str[offset];
   switch (value) {
     case '[':
-      return parse_array(str, offset);
+      if (depth >= maxDepth) error("Array: Nested too deeply");
+      return parse_array(str, offset, depth + 1);
     case '{':
-      return parse_object(str, offset);
+      if (depth >= maxDepth) error("Object: Nested too deeply");
+      return parse_object(str, offset, depth + 1);
     case '\"':
       return parse_string(str, offset);
     case 't':
@@ -486,6 +491,6 @@ JSONObject JSONObject::Object() {
 
 JSONObject loadJSON(const std::string &str) {
   size_t offset = 0;
-  return parse_next(str, offset);
+  return parse_next(str, offset, 0);
 }
 }  // namespace cuhksz
-- 
2.43.0


From 1b7b8a7f24c10aff6b068949ed8c2ac4894065bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:01 +0000
Subject: [PATCH 59/71] fix: SegmentTree of an empty vector no longer recurses
 without end

---
 src/include/graph/SegmentTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index caf2c4d..e7735e9 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -51,7 +51,7 @@ SegmentTree<ValueType>::SegmentTree(std::vector<ValueType>& v) {
     addFlag.push_back(v[0]);
     mulFlag.push_back(v[0]);
   }
-  init(v, 0, size - 1, 1);
+  if (size > 0) init(v, 0, size - 1, 1);
 }
 
 template <typename ValueType>
-- 
2.43.0


From 1ad9594778115379e0f2be60f6a307afe04c98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:01 +0000
Subject: [PATCH 60/71] fix: Matrix without rows or columns can be built,
 reduced and printed

---
 src/include/math_utils/Matrix.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 06469e3..45e5804 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -26,7 +26,7 @@ class Matrix {
 
   Matrix(std::vector<std::vector<int> > ini) {
     row = ini.size();
-    col = ini[0].size();
+    col = ini.empty() ? 0 : ini[0].size();
     elem = new ValueType*[row];
     for (int i = 0; i < row; i++) {
       elem[i] = new ValueType[col];
@@ -145,7 +145,7 @@ class Matrix {
   void reduce() {
     Matrix& A = *this;
     for (int i = 0, r = 0; i < row; i++) {
-      int nonZeroRow;
+      int nonZeroRow = -1;
       while (r < col) {
         nonZeroRow = -1;
         for (int j = i; j < row; j++)
@@ -176,8 +176,10 @@ class Matrix {
     std::string s;
     const Matrix& A = *this;
     for (int i = 0; i < row; i++) {
-      s += std::to_string(A[i][0]);
-      for (int j = 1; j < col; j++) s += ", " + std::to_string(A[i][j]);
+      for (int j = 0; j < col; j++) {
+        if (j > 0) s += ", ";
+        s += std::to_string(A[i][j]);
+      }
       s += "\n";
     }
     return s;
-- 
2.43.0


From 3124a45a6f5639df22db2f3ee684f9eb0ee9f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:40 +0000
Subject: [PATCH 61/71] fix: base64.h, geometry.h and graph.h bring in their
 modules

---
 src/include/base64.h   | 2 ++
 src/include/geometry.h | 4 +++-
 src/include/graph.h    | 6 +++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/base64.h b/src/include/base64.h
index b4ac385..e16c11a 100644
--- a/src/include/base64.h
+++ b/src/include/base64.h
@@ -1,4 +1,6 @@
 #ifndef CUHKSZ_BASE64
 #define CUHKSZ_BASE64
 
+#include "base64/base64_functions.h"
+
 #endif  // CUHKSZ_BASE64
diff --git a/src/include/geometry.h b/src/include/geometry.h
index 513d51e..23ea1a0 100644
--- a/src/include/geometry.h
+++ b/src/include/geometry.h
@@ -1,6 +1,8 @@
 #ifndef CUHKSZ_GEOMETRY
 #define CUHKSZ_GEOMETRY
 
-namespace cuhksz {}  // namespace cuhksz
+#include "geometry/Circle.h"
+#include "geometry/Line.h"
+#include "geometry/Point.h"
 
 #endif  // CUHKSZ_GEOMETRY
diff --git a/src/include/graph.h b/src/include/graph.h
index 1896cef..75670c8 100644
--- a/src/include/graph.h
+++ b/src/include/graph.h
@@ -1,6 +1,10 @@
 #ifndef CUHKSZ_GRAPH
 #define CUHKSZ_GRAPH
 
-namespace cuhksz {}  // namespace cuhksz
+#include "graph/BST.h"
+#include "graph/Edge.h"
+#include "graph/SegmentTree.h"
+#include "graph/Tree.h"
+#include "graph/Vertex.h"
 
 #endif  // CUHKSZ_GRAPH
-- 
2.43.0


From c295300a9b42d1aa68bf8739ce74cd854fb0bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:04 +0000
Subject: [PATCH 62/71] fix: printing a Vector applies the stream's number
 format to every element

---
 src/include/containers/Vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/containers/Vector.h b/src/include/containers/Vector.h
index f1dc52f..139893b 100644
--- a/src/include/containers/Vector.h
+++ b/src/include/containers/Vector.h
@@ -388,16 +388,16 @@ void Vector<ValueType>::emptyCheck() const {
 
 template <typename ValueType>
 std::ostream& operator<<(std::ostream& os, const Vector<ValueType>& vec) {
-  std::stringstream ss;
   if (vec.size() == 0) {
     return os << "{}";
   }
   if (vec.size() == 1) {
     return os << '{' << vec.last() << '}';
   }
+  os << '{';
   std::copy(vec.begin(), --vec.end(),
-            std::ostream_iterator<ValueType>(ss, ", "));
-  return os << '{' << ss.str() << vec.last() << '}';
+            std::ostream_iterator<ValueType>(os, ", "));
+  return os << vec.last() << '}';
 }
 
 template <typename ValueType>
-- 
2.43.0


From 5ca8d017bdeb22a2f7bb4d777835aa1e3feaa5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 63/71] fix: a cleared Matrix no longer frees its elements
 again

---
 src/include/math_utils/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 45e5804..bd56cd1 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -114,6 +114,8 @@ class Matrix {
   void clear() {
     for (int i = 0; i < row; i++) delete[] elem[i];
     delete[] elem;
+    elem = nullptr;
+    row = col = 0;
   }
 
   void deepCopy(const Matrix& src) {
-- 
2.43.0


From b86474b39a6f25f9291edd6962222f0e17906d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 64/71] fix: Matrix::deepCopy releases the elements it replaces

---
 src/include/math_utils/Matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index bd56cd1..9605f4c 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -34,7 +34,7 @@ class Matrix {
     }
   }
 
-  Matrix(const Matrix& src) { deepCopy(src); }
+  Matrix(const Matrix& src) : elem(nullptr), row(0), col(0) { deepCopy(src); }
 
   ~Matrix() { clear(); }
 
@@ -119,6 +119,8 @@ class Matrix {
   }
 
   void deepCopy(const Matrix& src) {
+    if (this == &src) return;
+    clear();
     row = src.row, col = src.col;
     elem = new ValueType*[row];
     for (int i = 0; i < row; i++) {
-- 
2.43.0


From 56de9f2d6fb32c04a1ba7a1862857e3eefa8e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 65/71] fix: SegmentTree::init drops pending updates of inner
 nodes too

---
 src/include/graph/SegmentTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/graph/SegmentTree.h b/src/include/graph/SegmentTree.h
index e7735e9..3a77bea 100644
--- a/src/include/graph/SegmentTree.h
+++ b/src/include/graph/SegmentTree.h
@@ -57,11 +57,11 @@ SegmentTree<ValueType>::SegmentTree(std::vector<ValueType>& v) {
 template <typename ValueType>
 void SegmentTree<ValueType>::init(std::vector<ValueType>& v, int l, int r,
                                   int o) {
+  hasAddFlag[o] = hasMulFlag[o] = false;
   if (l == r) {
     minVal[o] = v[l];
     maxVal[o] = v[l];
     sumVal[o] = v[l];
-    hasAddFlag[o] = hasMulFlag[o] = false;
     return;
   }
   int mid = (l + r) >> 1;
-- 
2.43.0


From a4370bdcfd2ad8b19c59eac006ea510161f4a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 66/71] fix: a new Tree has no root and a new Node has height 0

---
 src/graph/Tree.cpp       | 1 +
 src/include/graph/Tree.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph/Tree.cpp b/src/graph/Tree.cpp
index 3481abb..d035927 100644
--- a/src/graph/Tree.cpp
+++ b/src/graph/Tree.cpp
@@ -4,6 +4,7 @@ namespace cuhksz {
 
 Node::Node(int id, int val) : id(id), val(val) {
   fa = nullptr;
+  height = 0;
   son.clear();
 }
 
diff --git a/src/include/graph/Tree.h b/src/include/graph/Tree.h
index 4ead6d6..5e0fe4b 100644
--- a/src/include/graph/Tree.h
+++ b/src/include/graph/Tree.h
@@ -43,7 +43,7 @@ class Tree {
   int getDistance(Node* x, Node* y);
 
  private:
-  Node* root;
+  Node* root = nullptr;
   std::vector<Node*> nodes;
 };
 
-- 
2.43.0


From 355f339c2c2081a751d1d213b51922bd627d5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:48 +0000
Subject: [PATCH 67/71] fix: a failed allocation leaves no half-added edge at a
 Vertex

---
 src/graph/Vertex.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/graph/Vertex.cpp b/src/graph/Vertex.cpp
index c6b2d16..9e45670 100644
--- a/src/graph/Vertex.cpp
+++ b/src/graph/Vertex.cpp
@@ -27,7 +27,12 @@ Vertex::Vertex(const Vertex& src) {
   val = src.val;
   use = src.use;
   id = Vertex::nextVertexID++;
-  copyEdges(src);
+  try {
+    copyEdges(src);
+  } catch (...) {
+    clearEdges();  // the neighbours have edges to and from this vertex
+    throw;
+  }
 }
 
 Vertex::~Vertex() {
@@ -84,9 +89,12 @@ bool Vertex::operator!=(const Vertex& src) const { return !(*this == src); }
 bool Vertex::operator<(const Vertex& src) const { return val < src.val; }
 
 void Vertex::addEdge(Vertex& to, int val) {
+  // get the memory first, so that nothing has changed if there is none
+  std::list<Edge*> out(1), in(1);
   Edge* e = new Edge(this, &to, val);
-  outEdges.push_back(e);
-  to.inEdges.push_back(e);
+  out.front() = in.front() = e;
+  outEdges.splice(outEdges.end(), out);
+  to.inEdges.splice(to.inEdges.end(), in);
 }
 
 }  // namespace cuhksz
-- 
2.43.0


From d5cde0d6c746f13ea5487e6c60885fc92ed952e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:48 +0000
Subject: [PATCH 68/71] fix: Matrix construction and assignment leak nothing
 when an exception passes

---
 src/include/math_utils/Matrix.h | 39 ++++++++++++++-------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/include/math_utils/Matrix.h b/src/include/math_utils/Matrix.h
index 9605f4c..ce0eb27 100644
--- a/src/include/math_utils/Matrix.h
+++ b/src/include/math_utils/Matrix.h
@@ -17,31 +17,30 @@ class Matrix {
  public:
   explicit Matrix(int n) : Matrix(n, n) {}
 
-  Matrix(int n, int m) : row(n), col(m) {
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col]();
+  Matrix(int n, int m) : elem(new ValueType*[n]), row(0), col(m) {
+    try {
+      for (; row < n; row++) elem[row] = new ValueType[col]();
+    } catch (...) {
+      clear();
+      throw;
     }
   }
 
-  Matrix(std::vector<std::vector<int> > ini) {
-    row = ini.size();
-    col = ini.empty() ? 0 : ini[0].size();
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
+  Matrix(std::vector<std::vector<int> > ini)
+      : Matrix(ini.size(), ini.empty() ? 0 : ini[0].size()) {
+    for (int i = 0; i < row; i++)
       for (int j = 0; j < col; j++) elem[i][j] = ini[i][j];
-    }
   }
 
-  Matrix(const Matrix& src) : elem(nullptr), row(0), col(0) { deepCopy(src); }
+  Matrix(const Matrix& src) : Matrix(src.row, src.col) {
+    for (int i = 0; i < row; i++)
+      for (int j = 0; j < col; j++) elem[i][j] = src[i][j];
+  }
 
   ~Matrix() { clear(); }
 
   // allocation
   Matrix& operator=(const Matrix& src) {
-    if (this == &src) return *this;
-    clear();
     deepCopy(src);
     return *this;
   }
@@ -119,14 +118,10 @@ class Matrix {
   }
 
   void deepCopy(const Matrix& src) {
-    if (this == &src) return;
-    clear();
-    row = src.row, col = src.col;
-    elem = new ValueType*[row];
-    for (int i = 0; i < row; i++) {
-      elem[i] = new ValueType[col];
-      for (int j = 0; j < col; j++) elem[i][j] = src[i][j];
-    }
+    Matrix copy(src);  // may throw
+    std::swap(elem, copy.elem);
+    std::swap(row, copy.row);
+    std::swap(col, copy.col);
   }
 
   static Matrix idMat(int n) {
-- 
2.43.0


From df2257f7ccee412c69e027281aa060403f8deb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:48 +0000
Subject: [PATCH 69/71] fix: Json::setType leaves a valid value when there is
 no memory

---
 src/json/Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index c4131a9..f56c043 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -281,6 +281,7 @@ void JSONObject::setType(Type type) {
   if (type == objType) return;
 
   clearData();
+  objType = Type::Null;  // in case there is no memory for the new data
 
   switch (type) {
     case Type::Null:
-- 
2.43.0


From 6e19b47fb8169dd09adde4bb00cfab165f6fd0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 70/71] fix: loadJSON reads numbers with a decimal point in
 every global locale

---
 src/json/Json.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index f56c043..6ff990d 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -1,7 +1,9 @@
 #include "json/Json.h"
 
 #include <deque>
+#include <locale>
 #include <map>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -155,6 +157,15 @@ std::string parse_string(const std::string &str, size_t &offset) {
   return val;
 }
 
+// the number in a JSON text, whatever the decimal point of the global locale
+double parse_double(const std::string &text) {
+  std::istringstream in(text);
+  in.imbue(std::locale::classic());
+  double value = 0;
+  in >> value;
+  return value;
+}
+
 JSONObject parse_number(const std::string &str, size_t &offset) {
   JSONObject Number;
   std::string val, exp_str;
@@ -205,9 +216,9 @@ JSONObject parse_number(const std::string &str, size_t &offset) {
   }
 
   if (!exp_str.empty())
-    Number = (double)cuhksz::stringCast<double>(val + "e" + exp_str);
+    Number = parse_double(val + "e" + exp_str);
   else if (isDouble)
-    Number = (double)cuhksz::stringCast<double>(val);
+    Number = parse_double(val);
   else
     Number = (int)cuhksz::stringCast<int>(val);
   return Number;
-- 
2.43.0


From 087155996b101b9a547e443155ac54addd88561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:11 +0000
Subject: [PATCH 71/71] fix: dump() writes a decimal point in every C locale

---
 src/json/Json.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/json/Json.cpp b/src/json/Json.cpp
index 6ff990d..d5da4f8 100644
--- a/src/json/Json.cpp
+++ b/src/json/Json.cpp
@@ -478,8 +478,12 @@ std::string JSONObject::dump(int depth, std::string tab) const {
     }
     case Type::String:
       return "\"" + jsonEscape(*Data.String) + "\"";
-    case Type::Float:
-      return std::to_string(Data.Float);
+    case Type::Float: {
+      std::ostringstream out;
+      out.imbue(std::locale::classic());
+      out << std::fixed << Data.Float;
+      return out.str();
+    }
     case Type::Integral:
       return std::to_string(Data.Int);
     case Type::Boolean:
-- 
2.43.0

