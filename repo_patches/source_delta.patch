From d47b8156512c23243a420347e51f8ab93601b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 01/57] fix: infer cell types without std::regex, whose
 recursion overflows the stack on long cells

---
 source/parser/type_checker.hpp | 63 +++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 1376eaa..d10ae0e 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -29,32 +29,67 @@
 #ifndef EDGE_LEARNING_PARSER_TYPE_CHECKER_HPP
 #define EDGE_LEARNING_PARSER_TYPE_CHECKER_HPP
 
+#include <algorithm>
 #include <string>
 #include <sstream>
 #include <vector>
-#include <regex>
 
 namespace EdgeLearning {
 
 /**
- * \brief Regex to detect float values in string.
+ * \brief Advance an index over a sequence of decimal digits.
+ * \param s The string to scan.
+ * \param i The index from which to start.
+ * \return std::size_t The index of the first non-digit character.
  */
-const std::regex _float_regex   { "^[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?$" };
+inline std::size_t skip_digits(const std::string& s, std::size_t i)
+{
+    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
+    return i;
+}
 
 /**
- * \brief Regex to detect int values in string.
+ * \brief Detect float values in string: [-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?
+ * The scan is linear and not recursive (std::regex overflows the stack on long
+ * fields).
  */
-const std::regex _integer_regex { "^[-+]?(0|[1-9][0-9]*)$" };
+inline bool match_float(const std::string& s)
+{
+    std::size_t i = (s[0] == '-' || s[0] == '+') ? 1 : 0;
+    std::size_t begin = i;
+    i = skip_digits(s, i);
+    if (i < s.size() && s[i] == '.') begin = ++i;
+    i = skip_digits(s, i);
+    if (i == begin) return false;
+    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
+    {
+        ++i;
+        if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
+        begin = i;
+        i = skip_digits(s, i);
+        if (i == begin) return false;
+    }
+    return i == s.size();
+}
 
 /**
- * \brief Regex to detect bool values in string.
+ * \brief Detect int values in string: [-+]?(0|[1-9][0-9]*)
  */
-const std::regex _boolean_regex { "^(true|false)$" };
+inline bool match_integer(const std::string& s)
+{
+    std::size_t begin = (s[0] == '-' || s[0] == '+') ? 1 : 0;
+    std::size_t end = skip_digits(s, begin);
+    if (end == begin || end != s.size()) return false;
+    return s[begin] != '0' || end - begin == 1;
+}
 
 /**
- * \brief Regex to detect strings
+ * \brief Detect bool values in string: (true|false)
  */
-const std::regex _string_regex  { "^\".*\"$" };
+inline bool match_boolean(const std::string& s)
+{
+    return s == "true" || s == "false";
+}
 
 /**
  * \brief Convert a string in the templated type T and put the result in the
@@ -273,19 +308,15 @@ public:
             return TypeChecker::Type::NONE;
         }
 
-        if (std::regex_match(field, _string_regex))
-        {
-            return TypeChecker::Type::STRING;
-        }
-        else if (std::regex_match(field, _boolean_regex))
+        if (match_boolean(field))
         {
             return TypeChecker::Type::BOOL;
         }
-        else if (std::regex_match(field, _integer_regex))
+        else if (match_integer(field))
         {
             return TypeChecker::Type::INT;
         }
-        else if (std::regex_match(field, _float_regex))
+        else if (match_float(field))
         {
             return TypeChecker::Type::FLOAT;
         }
-- 
2.43.0


From 7eed7d4ce8372f9f3c10d8660cc82ef6c20408c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 02/57] fix: one-hot encoding keeps the inputs contiguous when
 a label column is not trailing

---
 source/parser/parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/parser/parser.hpp b/source/parser/parser.hpp
index 57502ae..70f0f54 100644
--- a/source/parser/parser.hpp
+++ b/source/parser/parser.hpp
@@ -246,13 +246,14 @@ public:
                     auto row = entry(row_idx);
 
                     // Copy the input.
+                    SizeType input_idx = 0;
                     for (SizeType col_idx = 0; col_idx < feature_size();
                          ++col_idx)
                     {
                         if (label_indexes.find(
                             col_idx) == label_indexes.end())
                         {
-                            ret[row_idx * entry_size + col_idx] = row[col_idx];
+                            ret[row_idx * entry_size + input_idx++] = row[col_idx];
                         }
                     }
 
-- 
2.43.0


From 434e5dda752b7d1a63ffbd4b66675f3d5ad6d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 03/57] fix: perceived brightness is the weighted sum of the
 three channels

---
 source/parser/cifar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..44f9933 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -68,7 +68,7 @@ enum class CifarShapeOrder
 static std::uint8_t perception_brightness(
     std::uint8_t r, std::uint8_t g, std::uint8_t b)
 {
-    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 * b * 0.07);
+    return static_cast<std::uint8_t>(r * 0.21 + g * 0.72 + b * 0.07);
 }
 
 /**
-- 
2.43.0


From 868d2f01f9a9985cd2b1bdd80dc167a3057f9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 04/57] fix: reading beyond the end of a short MNIST or CIFAR
 file no longer spoils later reads

---
 source/parser/cifar.hpp | 2 ++
 source/parser/mnist.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 44f9933..a7c2099 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -484,6 +484,7 @@ public:
     CifarImage image(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(
             static_cast<std::int64_t>(
                 (idx * (height() * width() * channels() + _label_offset))
@@ -500,6 +501,7 @@ public:
     CifarLabel label(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(static_cast<std::int64_t>(
             idx * (height() * width() * channels() + _label_offset)),
             _batch_ifs.beg);
diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..c29c8e1 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -371,6 +371,7 @@ public:
     MnistImage image(std::size_t idx)
     {
         idx = idx % _size;
+        _image_ifs.clear();
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
         return MnistImage{_image_ifs, idx};
@@ -384,6 +385,7 @@ public:
     MnistLabel label(std::size_t idx)
     {
         idx = idx % _size;
+        _label_ifs.clear();
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
         return MnistLabel{_label_ifs, idx};
-- 
2.43.0


From 67dcc0b140e599f8afd151ab8efcf3ead1624865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 05/57] fix: reject MNIST files too short to hold their header
 instead of using uninitialised counts

---
 source/parser/mnist.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index c29c8e1..d2fc190 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -74,7 +74,10 @@ static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
     std::uint32_t ret;
     char* buf = reinterpret_cast<char*>(&ret);
-    ifs.read(buf, 4);
+    if (!ifs.read(buf, 4))
+    {
+        throw std::runtime_error("Data malformed: header too short");
+    }
     uint32_endian_order(ret);
     return ret;
 }
-- 
2.43.0


From d901cb3bbb36316c3a2f3f640d58d4723cebf182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 06/57] fix: accessing an entry of an empty MNIST data set is
 an error and not a division by zero

---
 source/parser/mnist.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index d2fc190..faceb00 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -373,6 +373,7 @@ public:
      */
     MnistImage image(std::size_t idx)
     {
+        if (_size == 0) throw std::runtime_error("Empty dataset");
         idx = idx % _size;
         _image_ifs.clear();
         _image_ifs.seekg(static_cast<std::int64_t>(
@@ -387,6 +388,7 @@ public:
      */
     MnistLabel label(std::size_t idx)
     {
+        if (_size == 0) throw std::runtime_error("Empty dataset");
         idx = idx % _size;
         _label_ifs.clear();
         _label_ifs.seekg(static_cast<std::int64_t>(
-- 
2.43.0


From 315e50b42725ca5907b3cc4631e90f6d53a63a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 07/57] fix: an empty CSV cell reads as zero and not as
 uninitialised memory

---
 source/parser/csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..880f625 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -120,7 +120,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
@@ -380,7 +380,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
-- 
2.43.0


From 64340652a4bbb225c79d017e623dedb7d99d41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 08/57] fix: an empty last cell of a CSV row can be read like
 the others

---
 source/parser/csv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 880f625..09dd214 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -290,6 +290,12 @@ public:
             i++;
         }
 
+        // getline does not yield an empty field at the end of the line.
+        if (i == idx && (_line.empty() || _line.back() == _separator))
+        {
+            return CSVField{std::string{}, _types.at(idx), idx};
+        }
+
         throw std::runtime_error("CSV bad format: fields missing");
     }
 
-- 
2.43.0


From 7da2e7640cd8bcb8408a8334ae813484619b5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 09/57] fix: count the last CSV row also when it is not
 terminated by a newline

---
 source/parser/csv.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 09dd214..e53ee0a 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -666,6 +666,14 @@ public:
         _rows_amount = static_cast<std::size_t>(
             std::count(std::istream_iterator<char>(file), 
                 std::istream_iterator<char>(), '\n'));
+        // The last row could not be terminated by a newline.
+        file.clear();
+        file.seekg(0, std::ios_base::end);
+        if (file.tellg() > 0)
+        {
+            file.seekg(-1, std::ios_base::end);
+            if (file.get() != '\n') ++_rows_amount;
+        }
         file.clear();
         file.seekg(0);
 
-- 
2.43.0


From 3ea0e0f51ce9c25b7502f109621e1714a8fe8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 10/57] fix: the CSV end iterator is past the last row, not on
 it

---
 source/parser/csv.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index e53ee0a..37b7ac4 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -779,7 +779,8 @@ public:
      */
     CSVIterator end()
     { 
-        return CSVIterator{_fn, _rows_amount - 1, _cols_amount, _types, 
+        // At least 1: equal to begin() if there are no rows after the header.
+        return CSVIterator{_fn, std::max(_rows_amount, std::size_t(1)), _cols_amount, _types, 
                            _separator}; 
     }
 
-- 
2.43.0


From 1818126cea867dabead4f542dc367a0d32fee3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 11/57] fix: CSV row access wraps before looking at the cached
 row and rejects an empty file

---
 source/parser/csv.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 37b7ac4..b317688 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -744,10 +744,11 @@ public:
      */
     CSVRow operator[](std::size_t idx)
     {
-        // Manage row saved in cache.
-        if (_row_cache.idx() == idx) return _row_cache;
+        if (_rows_amount == 0) throw std::runtime_error("Empty CSV file");
         // Handle overflow with a circular indexing.
         idx = idx % _rows_amount; 
+        // Manage row saved in cache.
+        if (_row_cache.idx() == idx) return _row_cache;
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
@@ -904,7 +905,7 @@ public:
 
     SizeType entries_amount() const override
     {
-        return rows_size() - 1;
+        return rows_size() == 0 ? 0 : rows_size() - 1;
     }
 
     SizeType feature_size() const override
-- 
2.43.0


From 4581828565a0375faf3b17d4e1c1ef8963210108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 12/57] fix: a CSV iterator moved back after reading past the
 end finds its row again

---
 source/parser/csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index b317688..f1f66ac 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -593,6 +593,7 @@ private:
         if (_req_row_idx < _row._idx) 
         {
             _row._idx = 0;
+            _stream.clear();
             _stream.seekg(0);
             std::getline(_stream, _row._line);
         }
-- 
2.43.0


From 20da4b74edb8f075c98669c1cfed386af16e38e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 13/57] fix: the rows of a copied CSV no longer refer to the
 types of the original

---
 source/parser/csv.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index f1f66ac..40e8d25 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -709,6 +709,32 @@ public:
         file.close();
     }
 
+    /**
+     * \brief Construct a new CSV object by copy.
+     * \param obj Object to copy.
+     * The rows of the copy refer to the types of the copy.
+     */
+    CSV(const CSV& obj)
+        : DatasetParser()
+        , _fn{obj._fn}
+        , _types{obj._types}
+        , _row_header{obj._row_header._line, obj._row_header._idx,
+            obj._cols_amount, _types, obj._separator}
+        , _row_cache{obj._row_cache._line, obj._row_cache._idx,
+            obj._cols_amount, _types, obj._separator}
+        , _cols_amount{obj._cols_amount}
+        , _rows_amount{obj._rows_amount}
+        , _separator{obj._separator}
+        , _labels_idx{obj._labels_idx}
+    { }
+
+    /**
+     * \brief Copy assignment operator.
+     * \param obj Object to copy.
+     * \return CSV& The updated object.
+     */
+    CSV& operator=(const CSV& obj) = default;
+
     /**
      * \brief Destroy the CSV object.
      */
-- 
2.43.0


From 92d9d48d18afb958c19609d5d9cc09fa57d497a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 14/57] fix: JSON reading accepts empty lists and dicts and
 rejects unterminated ones instead of looping forever

---
 source/parser/json.hpp | 63 +++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 44 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..bd94c63 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1537,33 +1537,21 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
-    char c;
-    os.read(&c, 1);
+    os.get(); // '['
 
-    std::string more_items;
-    while (true) {
-        std::getline(os, more_items, ']');
-        os.seekg(-long(more_items.size() + 1), os.cur);
+    while (os.peek() != ']')
+    {
+        if (!os.good() || os.peek() == '}')
+        {
+            throw std::runtime_error("JSON malformed: unterminated list");
+        }
         JsonItem ji;
         os >> ji;
         obj._list.push_back(ji);
-
-        os.read(&c, 1);
-        if (c == ']')
-        {
-            break;
-        }
-        else
-        {
-            os.seekg(-1, os.cur);
-        }
     }
+    os.get(); // ']'
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    if (os.peek() == ',') os.get();
     return os;
 }
 
@@ -1585,39 +1573,26 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
-    char c;
-    os.read(&c, 1);
+    os.get(); // '{'
 
-    std::string more_items;
-    while (true)
+    while (os.peek() != '}')
     {
-        std::getline(os, more_items, '}');
-        os.seekg(-long(more_items.size() + 1), os.cur);
-        os.read(&c, 1);
+        os.get(); // '\"'
         std::string key;
         std::getline(os, key, '\"');
-        os.read(&c, 1);
+        os.get(); // ':'
+        if (!os.good())
+        {
+            throw std::runtime_error("JSON malformed: unterminated dict");
+        }
 
         JsonItem ji;
         os >> ji;
         obj._map[key] = ji;
-
-        os.read(&c, 1);
-        if (c == '}')
-        {
-            break;
-        }
-        else
-        {
-            os.seekg(-1, os.cur);
-        }
     }
+    os.get(); // '}'
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    if (os.peek() == ',') os.get();
     return os;
 }
 
-- 
2.43.0


From c0b72bc57bb3c0e406e4c177a14f2597dec54fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 15/57] fix: reading JSON from an exhausted stream does not use
 uninitialised data, and a complete document leaves the stream good

---
 source/parser/json.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index bd94c63..36fb3d3 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1488,17 +1488,13 @@ inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
 {
-    char c;
+    char c = 0;
     os.read(&c, 1);
     if (c == '\"')
     {
         obj._type = TypeChecker::Type::STRING;
         std::getline(os, obj._val, '\"');
-        if (!os.eof())
-        {
-            os.read(&c, 1);
-            if (c != ',') os.seekg(-1, os.cur);
-        }
+        if (os.peek() == ',') os.get();
     }
     else
     {
@@ -1604,7 +1600,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
-    char c;
+    char c = 0;
     os.read(&c, 1);
     os.seekg(-1, os.cur);
     switch(c)
-- 
2.43.0


From a8815f7f1c0cd18c0c1938101a85a79ed5f81087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 16/57] fix: comparing an empty JSON document does not
 dereference a null pointer

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 36fb3d3..ac2df21 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1701,6 +1701,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return !_value && !rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From 3c1c362b6974eef9f1b30b00add5fd95cbe36844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 17/57] fix: an empty JSON leaf reads as zero and not as
 uninitialised memory

---
 source/parser/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index ac2df21..052efa2 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -590,7 +590,7 @@ public:
     template<typename T>
     T as() const
     {
-        T ret;
+        T ret{};
         as(ret);
         return ret;
     }
-- 
2.43.0


From ad0d1ff3955b0f7f63771384f6511fc7d145c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 18/57] fix: an empty text in a JSON document is written as a
 text

---
 source/parser/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 052efa2..c778be8 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1475,7 +1475,7 @@ inline std::istream& operator>>(std::istream& os, JsonObject& obj)
 
 inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
 {
-    if (obj._type == TypeChecker::Type::STRING)
+    if (obj._type == TypeChecker::Type::STRING || obj._val.empty())
     {
         os << "\"" << obj._val << "\"";
     }
-- 
2.43.0


From bee499d38107c21ca0c4ebc64f96a2907dbc22e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 19/57] fix: floating point values written in JSON read back
 exactly

---
 source/parser/json.hpp         |  2 +-
 source/parser/type_checker.hpp | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index c778be8..ab018c9 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -537,7 +537,7 @@ public:
      * \param val double A double as a value.
      */
     JsonLeaf(double val)
-        : JsonLeaf(std::to_string(val), TypeChecker::Type::FLOAT)
+        : JsonLeaf(convert<double>(val), TypeChecker::Type::FLOAT)
     { }
 
     /**
diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index d10ae0e..4471b1a 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -30,6 +30,8 @@
 #define EDGE_LEARNING_PARSER_TYPE_CHECKER_HPP
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 #include <string>
 #include <sstream>
 #include <vector>
@@ -168,6 +170,27 @@ inline std::string convert<bool>(bool v)
     return v ? "true" : "false";
 }
 
+/**
+ * \brief Template specialization for double of convert<T>.
+ * \param v The double to convert.
+ * \return std::string The fixed notation with 6 decimals if it denotes exactly
+ * the value, otherwise enough significant digits to get the value back.
+ */
+template<>
+inline std::string convert<double>(double v)
+{
+    auto ret = std::to_string(v);
+    double back = 0.0;
+    if (std::isfinite(v) && (!convert<double>(ret, back) || back != v))
+    {
+        std::ostringstream ss;
+        ss.precision(std::numeric_limits<double>::max_digits10);
+        ss << v;
+        ret = ss.str();
+    }
+    return ret;
+}
+
 /**
  * \brief TypeChecker class that manages the types of parsed strings in input.
  */
-- 
2.43.0


From defaa37530d9670ff2f5ed891ed61e63d172ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 20/57] fix: JSON text nested too deeply is rejected instead of
 overflowing the stack

---
 source/parser/json.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index ab018c9..c018f5c 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1600,6 +1600,19 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
+    // Nesting of the item in the document, kept in the stream.
+    static const int depth_idx = std::ios_base::xalloc();
+    struct Depth
+    {
+        std::istream& is;
+        explicit Depth(std::istream& s) : is(s) { ++is.iword(depth_idx); }
+        ~Depth() { --is.iword(depth_idx); }
+    } depth(os);
+    if (os.iword(depth_idx) > 1000)
+    {
+        throw std::runtime_error("JSON malformed: nested too deeply");
+    }
+
     char c = 0;
     os.read(&c, 1);
     os.seekg(-1, os.cur);
-- 
2.43.0


From 62613c46b5d331bb40d97f8f7ac0f8d6c33a6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 21/57] fix: single precision values written in JSON read back
 exactly

---
 source/parser/type_checker.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 4471b1a..255379f 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -191,6 +191,17 @@ inline std::string convert<double>(double v)
     return ret;
 }
 
+/**
+ * \brief Template specialization for float of convert<T>.
+ * \param v The float to convert.
+ * \return std::string See convert<double>.
+ */
+template<>
+inline std::string convert<float>(float v)
+{
+    return convert<double>(v);
+}
+
 /**
  * \brief TypeChecker class that manages the types of parsed strings in input.
  */
-- 
2.43.0


From ac35a511824adff9a56b44aa53eb67492e0013d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 22/57] fix: a data set built from a table or re-sequenced
 keeps only whole sequences and accepts an empty one

---
 source/data/dataset.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..55dfa16 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,7 +174,8 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
-        _dataset_size = _sequence_amount * _sequence_size * _feature_size;
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
 
         // Init indexes set.
@@ -340,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
-        _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
-- 
2.43.0


From 314509f640f5a878da12b5d75938ecafe62ef368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 23/57] fix: automatic min-max normalisation of a constant
 column or an empty data set

---
 source/data/dataset.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 55dfa16..56b1758 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -636,6 +636,8 @@ public:
 
     Dataset<T>& min_max_normalization()
     {
+        if (_data.empty()) return *this;
+
         std::vector<T> min_vec(static_cast<std::size_t>(_feature_size));
         std::vector<T> max_vec(static_cast<std::size_t>(_feature_size));
 
@@ -662,8 +664,10 @@ public:
         {
             for (std::size_t col = 0; col < _feature_size; ++col)
             {
+                // The values of a constant column are all the minimum.
                 _data[row * _feature_size + col]
-                    = (_data[row * _feature_size + col] - min_vec[col])
+                    = max_vec[col] == min_vec[col] ? T(0)
+                    : (_data[row * _feature_size + col] - min_vec[col])
                         / (max_vec[col] - min_vec[col]);
             }
         }
-- 
2.43.0


From c5667d29f60ff1343bf0b0f15ad0ec001a568c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 24/57] fix: splitting an empty data set does not divide by
 zero

---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 56b1758..590bcdc 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -580,7 +580,8 @@ public:
         if (perc < 0.0) perc = 0.0;
         auto to = static_cast<SizeType>(perc
             * static_cast<NumType>(_feature_amount)
-            / static_cast<NumType>(_sequence_size)) * _sequence_size;
+            / static_cast<NumType>(std::max(_sequence_size, SizeType(1))))
+            * _sequence_size;
         return SplitDataset(subdata(0, to), subdata(to, _feature_amount));
     }
 
-- 
2.43.0


From 0b3fa0b266bdb7fa4485e9f372cc0feb5bb1accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 25/57] fix: the softmax derivative does not overflow for large
 inputs

---
 source/dnn/dlmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..10455ed 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -931,6 +931,7 @@ public:
     template <typename T>
     static T* stable_softmax_no_check(T* dst, const T* src, SizeType length)
     {
+        if (length == 0) return dst;
         T d = max<T>(src, length);
 
         // Compute the exponential of each value and compute the sum.
@@ -1047,7 +1048,7 @@ public:
     {
         T* tmp = new T[length];
         assert(tmp);
-        softmax(tmp, src, length);
+        stable_softmax_no_check(tmp, src, length);
         softmax_1_opt_no_check(dst, tmp, gradients, length);
         delete[] tmp;
         return dst;
-- 
2.43.0


From 9da598d7d31caefd0cfec8ad95ff431c4195a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 26/57] fix: a kernel larger than its input slides over no
 window and a zero stride does not divide by zero

---
 source/dnn/convolutional.cpp | 13 ++-----------
 source/dnn/dlmath.hpp        | 25 +++++++++++++++++++++----
 source/dnn/pooling.cpp       | 19 ++++++-------------
 3 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..62bb59f 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -30,24 +30,15 @@
 
 namespace EdgeLearning {
 
-static inline SizeType convolutional_output_side(
-    SizeType input_side, SizeType kernel_side,
-    SizeType stride, SizeType padding
-    )
-{
-    return input_side == 0 ?
-        0 : ((input_side - kernel_side + (2 * padding)) / stride) + 1ULL;
-}
-
 static inline DLMath::Shape3d convolutional_output_shape(
     DLMath::Shape3d input_shape, DLMath::Shape2d kernel_shape,
     DLMath::Shape2d stride, DLMath::Shape2d padding, SizeType n_filters
 )
 {
     return {
-        convolutional_output_side(input_shape.height(), kernel_shape.height(),
+        DLMath::kernel_slide_side(input_shape.height(), kernel_shape.height(),
                                   stride.height(), padding.height()),
-        convolutional_output_side(input_shape.width(), kernel_shape.width(),
+        DLMath::kernel_slide_side(input_shape.width(), kernel_shape.width(),
                                   stride.width(), padding.width()),
         n_filters};
 }
diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 10455ed..9555cbb 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1392,6 +1392,23 @@ public:
             _avg_pool_op<T>, dst, src, src_shape, nullptr, k_shape, 1, s);
     }
 
+    /**
+     * \brief Number of positions of a kernel that slides on a padded side.
+     * \param src_side The length of the source side.
+     * \param k_side   The length of the kernel side.
+     * \param s        The stride amount, at least 1.
+     * \param p        The padding of both the ends of the source side.
+     * \return The number of positions, 0 if the source is empty or if the
+     * kernel is longer than the padded source.
+     */
+    static SizeType kernel_slide_side(
+        SizeType src_side, SizeType k_side, SizeType s = 1, SizeType p = 0)
+    {
+        auto padded_side = src_side + 2 * p;
+        if (src_side == 0 || padded_side < k_side) return 0;
+        return ((padded_side - k_side) / std::max(s, SizeType(1))) + 1;
+    }
+
     /**
      * \brief Kernel slicing on the source matrix.
      * \tparam T        Type of each source and destination elements.
@@ -1434,10 +1451,10 @@ public:
     {
         s.width() = std::max(s.width(), SizeType(1));
         s.height() = std::max(s.height(), SizeType(1));
-        auto width_dst = src_shape.width() == 0 ? 0 :
-            ((src_shape.width() - k_shape.width() + 2 * p.width()) / s.width()) + 1;
-        auto height_dst = src_shape.height() == 0 ? 0 :
-            ((src_shape.height() - k_shape.height() + 2 * p.height()) / s.height()) + 1;
+        auto width_dst = kernel_slide_side(
+            src_shape.width(), k_shape.width(), s.width(), p.width());
+        auto height_dst = kernel_slide_side(
+            src_shape.height(), k_shape.height(), s.height(), p.height());
         for (SizeType row_dst = 0; row_dst < height_dst; ++row_dst)
         {
             for (SizeType col_dst = 0; col_dst < width_dst; ++col_dst)
diff --git a/source/dnn/pooling.cpp b/source/dnn/pooling.cpp
index 6e3e485..f65f336 100644
--- a/source/dnn/pooling.cpp
+++ b/source/dnn/pooling.cpp
@@ -28,25 +28,18 @@
 
 namespace EdgeLearning {
 
-static inline SizeType pooling_output_side(
-    SizeType input_side, SizeType kernel_side, SizeType stride
-    )
-{
-    return input_side == 0 ? 0 : ((input_side - kernel_side) / stride) + 1ULL;
-}
-
 static inline DLMath::Shape3d pooling_output_shape(
     DLMath::Shape3d input_shape, DLMath::Shape2d kernel_shape,
     DLMath::Shape2d stride
 )
 {
     return {
-        pooling_output_side(input_shape.height(),
-                            kernel_shape.height(),
-                            stride.height()),
-        pooling_output_side(input_shape.width(),
-                            kernel_shape.width(),
-                            stride.width()),
+        DLMath::kernel_slide_side(input_shape.height(),
+                                  kernel_shape.height(),
+                                  stride.height()),
+        DLMath::kernel_slide_side(input_shape.width(),
+                                  kernel_shape.width(),
+                                  stride.width()),
         input_shape.channels()};
 }
 
-- 
2.43.0


From bcc3686bf78c02ce820422e721d7bdba9f828e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 27/57] fix: average pooling passes the gradient also to the
 first element of each window

---
 source/dnn/avg_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/avg_pooling.cpp b/source/dnn/avg_pooling.cpp
index 22956ce..062814a 100644
--- a/source/dnn/avg_pooling.cpp
+++ b/source/dnn/avg_pooling.cpp
@@ -71,7 +71,7 @@ const std::vector<NumType>& AveragePoolingLayer::backward(
                 + dst_coord.col * src_shape.channels()
                 + c] / static_cast<NumType>(k_shape.width() * k_shape.height());
 
-            for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
+            for (SizeType k_i = 0; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
                 auto col_k = k_i % k_shape.width();
-- 
2.43.0


From 16cbc4ee2374defe691275a7d564fbffbee459bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 28/57] fix: max pooling passes the gradient to the first
 element of a window when it is the maximum

---
 source/dnn/max_pooling.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/max_pooling.cpp b/source/dnn/max_pooling.cpp
index 438d6ff..ab7e7cb 100644
--- a/source/dnn/max_pooling.cpp
+++ b/source/dnn/max_pooling.cpp
@@ -72,7 +72,8 @@ const std::vector<NumType>& MaxPoolingLayer::backward(
 
             NumType max = src[row * static_cast<int64_t>(src_step)
                               + col + static_cast<int64_t>(c)];
-            int64_t max_row = 0, max_col = 0;
+            int64_t max_row = row * static_cast<int64_t>(src_step);
+            int64_t max_col = col + static_cast<int64_t>(c);
             for (SizeType k_i = 1; k_i < k_shape.height() * k_shape.width(); ++k_i)
             {
                 auto row_k = k_i / k_shape.width();
-- 
2.43.0


From d06129d3a9585ba56f6eea40df04230156936bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 29/57] fix: the bias gradient of a convolutional layer
 accumulates over the batch

---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 62bb59f..0636e5f 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -120,7 +120,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From a2b6e6057c6b4682fd1e6a111754e02f7c89b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 30/57] fix: the recurrent layer differentiates tanh at its
 pre-activation, not at its result

---
 source/dnn/recurrent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 073d064..a1836e5 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -285,7 +285,8 @@ const std::vector<NumType>& RecurrentLayer::backward(
             case HiddenActivation::TanH:
             default:
             {
-                DLMath::tanh_1<NumType>(
+                // The hidden state already contains the tanh result.
+                DLMath::tanh_1_opt<NumType>(
                     next_hidden_state.data(), 
                     _hidden_state.data() + curr_hs_idx * _hidden_size, 
                     _hidden_size);
-- 
2.43.0


From 20352cc29e73f3b5010830c3cb9832a22bdced7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 31/57] fix: the recurrent layer with one time step uses its
 hidden state before overwriting it

---
 source/dnn/recurrent.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index a1836e5..b59a0f0 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -131,6 +131,15 @@ const std::vector<NumType>& RecurrentLayer::forward(
         curr_hs_idx = t;
         next_hs_idx = (t == (_time_steps - 1)) ? 0 : t + 1;
 
+        /*
+         * Compute the product of the hidden state with its 
+         * hidden_to_hidden weights, before the slot of the next hidden state, 
+         * that is the current one with a single time step, is overwritten.
+         */
+        DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
+            _hidden_state.data() + curr_hs_idx * _hidden_size, 
+            _hidden_size, _hidden_size);
+
         /*
          * Compute the product of the input with its input_to_hidden weights.
          * h(t+1) = W_ih * x 
@@ -141,13 +150,9 @@ const std::vector<NumType>& RecurrentLayer::forward(
             curr_sequence, _hidden_size, _shared_fields->input_size());
 
         /*
-         * Compute the product of the hidden state with its 
-         * hidden_to_hidden weights and the sum with the to_hidden bias.
+         * Sum the hidden to hidden product and the to_hidden bias.
          * h(t+1) += W_hh * h(t) + b_h
          */
-        DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
-            _hidden_state.data() + curr_hs_idx * _hidden_size, 
-            _hidden_size, _hidden_size);
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
             _hidden_state.data() + next_hs_idx * _hidden_size,
-- 
2.43.0


From f86232e8ca51c3ffad470370581f4deb4754f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 32/57] fix: the recurrent layer takes the first time step's
 gradient at its initial hidden state

---
 source/dnn/recurrent.cpp | 15 +++++++++++----
 source/dnn/recurrent.hpp |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index b59a0f0..7556b5a 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -69,6 +69,7 @@ RecurrentLayer::RecurrentLayer(std::string name,
     // The hidden state is of hidden_size for each time step of the sequences.
     _hidden_state = std::vector<NumType>(
         _hidden_size * std::max(_time_steps, SizeType(1U)), 0.0);
+    _initial_hidden_state.resize(_hidden_size);
 
     _weights_i_to_h_gradients.resize(ih_size);
     _weights_h_to_h_gradients.resize(hh_size);
@@ -124,6 +125,10 @@ const std::vector<NumType>& RecurrentLayer::forward(
 
     auto *tmp_mul = new NumType[_hidden_size];
 
+    // Keep the initial hidden state, that the last time step overwrites.
+    _initial_hidden_state.assign(
+        _hidden_state.begin(), _hidden_state.begin() + long(_hidden_size));
+
     // Loop the time sequences.
     for (SizeType t = 0; t < _time_steps; ++t)
     {
@@ -224,7 +229,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
 {
     const NumType* curr_sequence_gradients; //< Ptr to the current gradients.
     SizeType curr_hs_idx; //< Current hidden state index.
-    SizeType prev_hs_idx; //< Previous hidden state index.
+    const NumType* prev_hidden_state; //< Ptr to the previous hidden state.
 
     std::vector<NumType> next_hidden_state(
         static_cast<std::size_t>(_hidden_size), NumType{0.0});
@@ -235,7 +240,9 @@ const std::vector<NumType>& RecurrentLayer::backward(
     {
         SizeType t_idx = t - 1;
         curr_hs_idx = (t >= _time_steps) ? 0 : t;
-        prev_hs_idx = t_idx;
+        prev_hidden_state = t_idx == 0
+            ? _initial_hidden_state.data()
+            : _hidden_state.data() + t_idx * _hidden_size;
         curr_sequence_gradients = gradients.data() + (t_idx * _shared_fields->output_size());
 
         // Bias gradient to output.
@@ -324,8 +331,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
             for (SizeType j = 0; j < _hidden_size; ++j)
             {
                 _weights_h_to_h_gradients[(i * _hidden_size) + j] += 
-                    next_hidden_state[i] 
-                    * _hidden_state[(SizeType(prev_hs_idx) * _hidden_size) + j];
+                    next_hidden_state[i] * prev_hidden_state[j];
             }
         }
 
@@ -577,6 +583,7 @@ void RecurrentLayer::load(const Json& in)
     _biases_to_o.resize(_shared_fields->output_size());
     _output_activations.resize(_shared_fields->output_size() * _time_steps);
     _hidden_state.resize(_hidden_size * std::max(_time_steps, SizeType(1U)));
+    _initial_hidden_state.resize(_hidden_size);
     _weights_i_to_h_gradients.resize(ih_size);
     _weights_h_to_h_gradients.resize(hh_size);
     _weights_h_to_o_gradients.resize(ho_size);
diff --git a/source/dnn/recurrent.hpp b/source/dnn/recurrent.hpp
index 9c51d22..cd92570 100644
--- a/source/dnn/recurrent.hpp
+++ b/source/dnn/recurrent.hpp
@@ -158,6 +158,8 @@ private:
     SizeType _hidden_size;
 
     std::vector<NumType> _hidden_state;
+    /// \brief The hidden state the latest forward pass started with.
+    std::vector<NumType> _initial_hidden_state;
     SizeType _time_steps;
 
     // == Layer parameters ==
-- 
2.43.0


From f84f3078903ad898a4c096479fa175231b26be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 33/57] fix: Adam keeps the moments of each parameter apart

---
 source/dnn/adam_optimizer.cpp | 28 ++++++++++++++++------------
 source/dnn/adam_optimizer.hpp | 17 ++++++++++++++---
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/source/dnn/adam_optimizer.cpp b/source/dnn/adam_optimizer.cpp
index 0d84a63..53dd924 100644
--- a/source/dnn/adam_optimizer.cpp
+++ b/source/dnn/adam_optimizer.cpp
@@ -35,33 +35,39 @@ AdamOptimizer::AdamOptimizer(
     , _beta_1{beta_1}
     , _beta_2{beta_2}
     , _epsilon{epsilon}
-    , _m{0.0}
-    , _v{0.0}
-    , _t{1}
+    , _states{}
 { }
 
 void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
 {
     SizeType param_count = layer_to.param_count();
+    if (param_count == 0) return;
+
+    // The moments of each parameter, kept by the parameters they belong to,
+    // that a layer shares with its clones.
+    State& state = _states[&layer_to.param(0)];
+    state.m.resize(param_count, NumType{0.0});
+    state.v.resize(param_count, NumType{0.0});
+    ++state.t;
+
     for (SizeType i = 0; i < param_count; ++i)
     {
         NumType& param    = layer_to.param(i);
         NumType& gradient = layer_from.gradient(i);
 
         // beta 1 - Momentum optimizer.
-        _m = _beta_1 * _m + (1 - _beta_1) * gradient;
+        state.m[i] = _beta_1 * state.m[i] + (1 - _beta_1) * gradient;
 
         // beta 2 - RMSProp optimizer.
-        _v = _beta_2 * _v + (1 - _beta_2) * (gradient * gradient);
+        state.v[i] = _beta_2 * state.v[i]
+            + (1 - _beta_2) * (gradient * gradient);
 
         // bias correction.
-        auto m_corrected = _m / (1 - std::pow(_beta_1, _t));
-        auto v_corrected = _v / (1 - std::pow(_beta_2, _t));
+        auto m_corrected = state.m[i] / (1 - std::pow(_beta_1, state.t));
+        auto v_corrected = state.v[i] / (1 - std::pow(_beta_2, state.t));
 
         param -= _eta * (m_corrected / (std::sqrt(v_corrected) + _epsilon));
 
-        ++_t;
-
         // Reset the gradient accumulated again in the next training epoch.
         gradient = NumType{0.0};
     }
@@ -69,9 +75,7 @@ void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
 
 void AdamOptimizer::reset()
 {
-    _t = 1;
-    _m = 0;
-    _v = 0;
+    _states.clear();
 }
 
 } // namespace EdgeLearning
diff --git a/source/dnn/adam_optimizer.hpp b/source/dnn/adam_optimizer.hpp
index f362c19..18c7486 100644
--- a/source/dnn/adam_optimizer.hpp
+++ b/source/dnn/adam_optimizer.hpp
@@ -31,6 +31,8 @@
 
 #include "optimizer.hpp"
 
+#include <map>
+
 
 namespace EdgeLearning {
 
@@ -82,9 +84,18 @@ private:
     NumType _beta_2;  ///< \brief Exponential decay for the second moment.
     NumType _epsilon; ///< \brief A value near to zero.
 
-    NumType _m;  ///< \brief The first moment (momentum optimizer algorithm).
-    NumType _v;  ///< \brief The second moment (RMSProp optimizer algorithm).
-    SizeType _t; ///< \brief Incremental timestamp (temperature).
+    /**
+     * \brief Optimization history of the parameters of a layer.
+     */
+    struct State
+    {
+        Params m;      ///< \brief First moments (momentum algorithm).
+        Params v;      ///< \brief Second moments (RMSProp algorithm).
+        SizeType t{0}; ///< \brief Incremental timestamp (temperature).
+    };
+
+    /// \brief The histories, by the address of the first layer parameter.
+    std::map<const NumType*, State> _states;
 };
 
 } // namespace EdgeLearning
-- 
2.43.0


From 4ca2e3a4ca989c7a03c3692a718f46b046df4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 34/57] fix: a dropout layer outputs its inputs when it
 predicts

---
 source/dnn/dropout.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index 915284f..3af0230 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -70,7 +70,10 @@ public:
         const std::vector<NumType>& inputs) override
     {
         _last_input = inputs.data();
-        return FeedforwardLayer::forward(inputs);
+        std::copy_n(inputs.begin(),
+                    std::min(inputs.size(), _output_activations.size()),
+                    _output_activations.begin());
+        return FeedforwardLayer::forward(_output_activations);
     }
 
     /**
-- 
2.43.0


From 8383390d74d7f289cd41f59a65953b2f6ef7e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 35/57] fix: the initialisation seed of a model determines the
 values its dropout layers drop

---
 source/dnn/dropout.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index 3af0230..63348e4 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -50,10 +50,10 @@ public:
     { return TYPE; }
 
     /**
-     * \brief No initialization is needed for Pooling layers.
+     * \brief Initialize the random generator of the dropped values.
      * \param init  Not used.
      * \param pdf   Not used.
-     * \param rne   Not used.
+     * \param rne   RneType The random generator.
      */
     void init(
         InitializationFunction init = InitializationFunction::KAIMING,
@@ -63,7 +63,7 @@ public:
     {
         (void) init;
         (void) pdf;
-        (void) rne;
+        _random_generator = rne;
     };
 
     const std::vector<NumType>& forward(
-- 
2.43.0


From 44d47f14ca3aa0856e654569808c769578005f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:53 +0000
Subject: [PATCH 36/57] fix: the alpha of an ELU layer is saved and loaded with
 the model

---
 source/dnn/activation.cpp | 18 ++++++++++++++++++
 source/dnn/activation.hpp | 12 ++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/source/dnn/activation.cpp b/source/dnn/activation.cpp
index 8509aa1..e8ae70b 100644
--- a/source/dnn/activation.cpp
+++ b/source/dnn/activation.cpp
@@ -130,6 +130,24 @@ const std::vector<NumType>& EluLayer::backward(
                     gradients.data(), size);
     return ActivationLayer::backward(_input_gradients);
 }
+
+Json EluLayer::dump() const
+{
+    Json out = ActivationLayer::dump();
+
+    Json others;
+    others["alpha"] = _alpha;
+    out[dump_fields.at(DumpFields::OTHERS)] = others;
+    return out;
+}
+
+void EluLayer::load(const Json& in)
+{
+    ActivationLayer::load(in);
+
+    _alpha = in.at(dump_fields.at(DumpFields::OTHERS))
+        .at("alpha").as<NumType>();
+}
 // =============================================================================
 
 // ================================ Softmax ====================================
diff --git a/source/dnn/activation.hpp b/source/dnn/activation.hpp
index fe73ccb..fd8b6e5 100644
--- a/source/dnn/activation.hpp
+++ b/source/dnn/activation.hpp
@@ -143,6 +143,18 @@ public:
         const std::vector<NumType>& inputs) override;
     const std::vector<NumType>& backward(
         const std::vector<NumType>& gradients) override;
+
+    /**
+     * \brief Save the layer infos to disk.
+     * \return Json Layer dump.
+     */
+    Json dump() const override;
+
+    /**
+     * \brief Load the layer infos from disk.
+     * \param in const Json& Json to read.
+     */
+    void load(const Json& in) override;
 private:
     NumType _alpha;
 };
-- 
2.43.0


From 102669306fe4be7fd03302ece4d4b9ede6df488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 37/57] fix: fitting again with another batch size scales the
 gradients by that batch size

---
 source/dnn/loss.cpp       | 6 ++++++
 source/dnn/loss.hpp       | 6 ++++++
 source/middleware/fnn.hpp | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/source/dnn/loss.cpp b/source/dnn/loss.cpp
index 5b30ebf..9ca398e 100644
--- a/source/dnn/loss.cpp
+++ b/source/dnn/loss.cpp
@@ -53,6 +53,12 @@ void LossLayer::set_target(const std::vector<NumType>& target)
     _target = target;
 }
 
+void LossLayer::set_batch_size(SizeType batch_size)
+{
+    _inv_batch_size = NumType{1.0}
+        / static_cast<NumType>(std::max(batch_size, SizeType{1}));
+}
+
 NumType LossLayer::accuracy() const
 {
     return static_cast<NumType>(_correct) 
diff --git a/source/dnn/loss.hpp b/source/dnn/loss.hpp
index 2b0220e..c66b924 100644
--- a/source/dnn/loss.hpp
+++ b/source/dnn/loss.hpp
@@ -115,6 +115,12 @@ public:
      */
     void set_target(const std::vector<NumType>& target);
 
+    /**
+     * \brief Setter of the batch size that scales the gradients.
+     * \param batch_size The number of samples of each batch.
+     */
+    void set_batch_size(SizeType batch_size);
+
     /**
      * \brief Calculate and return the accuracy until the last forward
      * iteration.
diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 4aaacd0..9be7ca8 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -219,6 +219,10 @@ public:
                 _m.create_loss_edge(output_layer, loss_layer);
             }
         }
+        for (auto loss_layer: _m.loss_layers())
+        {
+            loss_layer->set_batch_size(batch_size);
+        }
 
         // Train.
         _m.init(MapInit<Framework::EDGE_LEARNING, IT>::type,
-- 
2.43.0


From b27fb075aa5532180734646c03be5d4679821d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 38/57] fix: an assigned or swapped model uses the layers of
 its own graph

---
 source/dnn/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a575b10..eb18968 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -62,6 +62,10 @@ void swap(Model& lop, Model& rop)
     using std::swap;
     swap(lop._shared_fields, rop._shared_fields);
     swap(lop._state, rop._state);
+
+    // The graphs have cloned their layers.
+    lop._state.update();
+    rop._state.update();
 }
 
 void Model::create_back_arc(
-- 
2.43.0


From 25cef0ce866e80eae28059e0a9ba6e04c8d8de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 39/57] fix: a graph counts a layer without arcs among its
 input and output layers

---
 source/dnn/dlgraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 3c95613..a7d4f46 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -88,6 +88,8 @@ void DLGraph::add_node(std::shared_ptr<Layer> layer)
     }
 
     _layers.push_back(layer);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 void DLGraph::add_edge(std::shared_ptr<Layer> from, std::shared_ptr<Layer> to)
@@ -191,6 +193,8 @@ void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
     add_node(layer);
     _loss_layers_idx.push_back(_layers.size() - 1);
+    _compute_input_layers();
+    _compute_output_layers();
 }
 
 bool DLGraph::has_training_forward(std::size_t layer_idx) const
-- 
2.43.0


From 7086dc5ce68f4307353755c9d23ba6cfd770cf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 40/57] fix: parallel training updates the parameters only
 after every copy has computed its gradients

---
 source/middleware/fnn.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 9be7ca8..d8629b8 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -103,8 +103,13 @@ public:
                     std::cout << "step " << i << std::endl;
                 }
 
+                // The copies share their parameters with the model: update them
+                // only when no copy is reading them any more.
+                std::vector<Model> models;
                 for (auto& f: futures) {
-                    Model m = f.get();
+                    models.push_back(f.get());
+                }
+                for (auto& m: models) {
                     model.train(o, m);
                 }
             }
@@ -147,8 +152,13 @@ public:
                     i += batch_size;
                 }
 
+                // The copies share their parameters with the model: update them
+                // only when no copy is reading them any more.
+                std::vector<Model> models;
                 for (auto& f: futures) {
-                    Model m = f.get();
+                    models.push_back(f.get());
+                }
+                for (auto& m: models) {
                     model.train(o, m);
                 }
             }
-- 
2.43.0


From f4fe7c035228b10cb7207871ce789e109a7ff897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 41/57] fix: parallel training on batches does not update the
 parameters for chunks beyond the data

---
 source/middleware/fnn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index d8629b8..1427788 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -133,7 +133,8 @@ public:
                 model.reset_score();
 
                 std::vector<BetterThreads::Future<Model>> futures;
-                for (SizeType t = 0; t < tm.concurrency(); ++t)
+                for (SizeType t = 0; t < tm.concurrency()
+                                     && i < data.size(); ++t)
                 {
                     futures.push_back(tm.enqueue(
                         [&, batch_size](SizeType idx)
-- 
2.43.0


From c4b6cd676911a716a127e0a4b4f6b13e8d08025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 42/57] fix: the threaded dense gradient does not add to the
 same input gradient from several tasks

---
 source/dnn/dlmath.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9555cbb..d4dc3a9 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1907,11 +1907,22 @@ public:
                     {
                         weight_gradients[(out_idx * input_size) + j] +=
                             gradients[out_idx] * last_input[j];
-                        input_gradients[j] +=
-                            gradients[out_idx] * weights[(out_idx * input_size) + j];
                     }
                 }, i));
         }
+        // An input gradient sums over all the outputs: one task for each of
+        // them, because tasks that add to the same element are not allowed.
+        for (SizeType j = 0; j < input_size; ++j)
+        {
+            futures.push_back(tm.enqueue(
+                [&](SizeType in_idx) {
+                    for (SizeType i = 0; i < output_size; ++i)
+                    {
+                        input_gradients[in_idx] +=
+                            gradients[i] * weights[(i * input_size) + in_idx];
+                    }
+                }, j));
+        }
         for (auto& f: futures) f.get();
         return input_gradients;
     }
-- 
2.43.0


From 4b99db43e22697c5125080dc76e9e060db2f62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 43/57] fix: a convolutional layer adds the bias of each filter
 to its output

---
 source/dnn/convolutional.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index 0636e5f..71daf2f 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -97,6 +97,14 @@ const std::vector<NumType>& ConvolutionalLayer::forward(
         _shared_fields->input_shape().shape(),
         _weights.data(), _kernel_shape, _n_filters, _stride, _padding);
 
+    // Add to each output the bias of its filter.
+    for (SizeType i = 0; i < _output_activations.size(); i += _n_filters)
+    {
+        DLMath::arr_sum<NumType>(
+            _output_activations.data() + i, _output_activations.data() + i,
+            _biases.data(), _n_filters);
+    }
+
     return FeedforwardLayer::forward(_output_activations);
 }
 
-- 
2.43.0


From 23e2e0f98eb5a87061e46065fd6789aa6d7fd0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:06 +0000
Subject: [PATCH 44/57] fix: a loss layer added to a graph twice is one loss
 layer

---
 source/dnn/dlgraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index a7d4f46..39b5027 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -192,7 +192,11 @@ void DLGraph::add_arc_backward(
 void DLGraph::add_loss(std::shared_ptr<LossLayer> layer)
 {
     add_node(layer);
-    _loss_layers_idx.push_back(_layers.size() - 1);
+    auto layer_idx = static_cast<SizeType>(index_of(*layer));
+    if (DLMath::index_of(_loss_layers_idx, layer_idx) == -1)
+    {
+        _loss_layers_idx.push_back(layer_idx);
+    }
     _compute_input_layers();
     _compute_output_layers();
 }
-- 
2.43.0


From 96d69e5a997fed8daafdfce8888a0849c6b3f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:23 +0000
Subject: [PATCH 45/57] fix: a model file that cannot be loaded leaves the
 model as it was

---
 source/dnn/model.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index eb18968..172deaa 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -335,11 +335,31 @@ void Model::load(std::ifstream& in)
     Json model;
     in >> model;
 
-    _shared_fields->name() = model["name"].as<std::string>();
-    for (std::size_t l_i = 0; l_i < _state.layers.size(); ++l_i)
+    // A file that cannot be loaded leaves the model as it was.
+    std::vector<Json> backup;
+    for (const auto& layer: _state.layers)
     {
-        auto layer_json = Json(model["layers"][l_i]);
-        _state.layers[l_i]->load(layer_json);
+        backup.push_back(layer->dump());
+    }
+
+    std::size_t l_i = 0;
+    try
+    {
+        auto name = model["name"].as<std::string>();
+        for (; l_i < _state.layers.size(); ++l_i)
+        {
+            auto layer_json = Json(model["layers"][l_i]);
+            _state.layers[l_i]->load(layer_json);
+        }
+        _shared_fields->name() = name;
+    }
+    catch (...)
+    {
+        for (std::size_t i = 0; i < _state.layers.size() && i <= l_i; ++i)
+        {
+            _state.layers[i]->load(backup[i]);
+        }
+        throw;
     }
 }
 
-- 
2.43.0


From 8c2f4e240145acbabc78c09e56a460249b029468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:51 +0000
Subject: [PATCH 46/57] fix: a training step sums the gradients of all the
 layers a layer feeds

---
 source/dnn/model.cpp | 57 ++++++++++++++++++++++++++++++++++++++++++--
 source/dnn/model.hpp | 11 +++++++--
 2 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index 172deaa..d833264 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -34,6 +34,36 @@
 
 namespace EdgeLearning {
 
+std::vector<DLGraph::Arc> Model::State::gradient_run(
+    std::vector<DLGraph::Arc> arcs)
+{
+    std::vector<DLGraph::Arc> ret;
+    while (!arcs.empty())
+    {
+        // The first layer whose followers are all done, if there are no cycles.
+        auto target = std::find_if(arcs.begin(), arcs.end(),
+            [&arcs](const DLGraph::Arc& arc)
+            {
+                return std::none_of(arcs.begin(), arcs.end(),
+                    [&arcs, &arc](const DLGraph::Arc& in)
+                    {
+                        return in.to == arc.to && std::any_of(
+                            arcs.begin(), arcs.end(),
+                            [&in](const DLGraph::Arc& other)
+                            {
+                                return other.to == in.from;
+                            });
+                    });
+            });
+        auto layer = (target == arcs.end() ? arcs.begin() : target)->to;
+        auto pending = std::stable_partition(arcs.begin(), arcs.end(),
+            [&layer](const DLGraph::Arc& arc) { return arc.to == layer; });
+        ret.insert(ret.end(), arcs.begin(), pending);
+        arcs.erase(arcs.begin(), pending);
+    }
+    return ret;
+}
+
 Model::Model(std::string name)
     : _shared_fields(std::make_shared<Fields>(name))
     , _state{}
@@ -222,9 +252,32 @@ void Model::step(const std::vector<NumType>& input,
     {
         loss_layer->backward(not_used);
     }
-    for (const auto& backward_arc: _state.backward_run)
+    // The gradient of a layer is the sum of the ones of the layers it feeds.
+    const auto& run = _state.backward_run;
+    for (SizeType i = 0; i < run.size();)
     {
-        backward_arc.to->backward(backward_arc.from->last_input_gradient());
+        const auto& layer = run[i].to;
+        const auto& gradient = run[i].from->last_input_gradient();
+        if (++i == run.size() || run[i].to != layer)
+        {
+            layer->backward(gradient);
+            continue;
+        }
+        std::vector<NumType> sum(gradient);
+        for (; i < run.size() && run[i].to == layer; ++i)
+        {
+            const auto& addend = run[i].from->last_input_gradient();
+            if (addend.size() != sum.size())
+            {
+                throw std::runtime_error(
+                    "The layers fed by a layer have different input sizes");
+            }
+            for (SizeType j = 0; j < sum.size(); ++j)
+            {
+                sum[j] += addend[j];
+            }
+        }
+        layer->backward(sum);
     }
 }
 
diff --git a/source/dnn/model.hpp b/source/dnn/model.hpp
index 062a262..3b75038 100644
--- a/source/dnn/model.hpp
+++ b/source/dnn/model.hpp
@@ -74,7 +74,7 @@ public:
             , loss_layers(graph.loss_layers())
             , training_forward_run(graph.training_forward_run())
             , forward_run(graph.forward_run())
-            , backward_run(graph.backward_run())
+            , backward_run(gradient_run(graph.backward_run()))
         { }
 
         void update()
@@ -85,9 +85,16 @@ public:
             loss_layers = graph.loss_layers();
             training_forward_run = graph.training_forward_run();
             forward_run = graph.forward_run();
-            backward_run = graph.backward_run();
+            backward_run = gradient_run(graph.backward_run());
         }
 
+        /**
+         * \brief Order the arcs of a backward run so that all the arcs that
+         * lead to a layer are adjacent and precede the ones that leave it.
+         */
+        static std::vector<DLGraph::Arc> gradient_run(
+            std::vector<DLGraph::Arc> arcs);
+
         DLGraph graph;
         std::vector<Layer::SharedPtr> layers;
         std::vector<Layer::SharedPtr> input_layers;
-- 
2.43.0


From ab286bb44acbcade756b4ca5ef1773ccdf6e6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:07 +0000
Subject: [PATCH 47/57] fix: reading a JSON list or dictionary replaces what it
 held

---
 source/parser/json.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index c018f5c..d6b686a 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1533,6 +1533,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
+    obj._list.clear();
     os.get(); // '['
 
     while (os.peek() != ']')
@@ -1569,6 +1570,7 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
+    obj._map.clear();
     os.get(); // '{'
 
     while (os.peek() != '}')
-- 
2.43.0


From 2ec7beac750aa737f5458ba26dd677c236c575b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 48/57] fix: generated names are unique across threads

---
 source/dnn/dlmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index d4dc3a9..f534a63 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -35,6 +35,7 @@
 #include <stdexcept>
 #include <tuple>
 #include <algorithm>
+#include <atomic>
 #include <iterator>
 #include <limits>
 #include <vector>
@@ -455,7 +456,7 @@ public:
 
     static SizeType unique()
     {
-        static SizeType id = 0;
+        static std::atomic<SizeType> id{0};
         return id++;
     }
 
-- 
2.43.0


From 8b15235f10db42a555ca932216efc0bdf21a6384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 49/57] fix: a loss layer prints one percent sign

---
 source/dnn/loss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/loss.cpp b/source/dnn/loss.cpp
index 9ca398e..9918be1 100644
--- a/source/dnn/loss.cpp
+++ b/source/dnn/loss.cpp
@@ -81,7 +81,7 @@ void LossLayer::reset_score()
 void LossLayer::print() const
 {
     std::cout << "Avg Loss: " << avg_loss()
-        << "\t" << (accuracy() * 100.0) << "%% correct" << std::endl;
+        << "\t" << (accuracy() * 100.0) << "% correct" << std::endl;
 }
 
 Json LossLayer::dump() const
-- 
2.43.0


From 467b6ebbcf8cebb39b28a7697e019f519a5774c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:43 +0000
Subject: [PATCH 50/57] fix: a recurrent layer prints the sizes of its weights

---
 source/dnn/recurrent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 7556b5a..55770f7 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -454,7 +454,7 @@ void RecurrentLayer::print() const
         std::cout << std::endl;
     }
     std::cout << "Weights hidden to hidden (" 
-        << _hidden_size << " x " << _shared_fields->input_size() << ")" << std::endl;
+        << _hidden_size << " x " << _hidden_size << ")" << std::endl;
     for (SizeType i = 0; i < _hidden_size; ++i)
     {
         SizeType offset = i * _hidden_size;
@@ -466,7 +466,7 @@ void RecurrentLayer::print() const
         std::cout << std::endl;
     }
     std::cout << "Weights hidden to output (" 
-        << _shared_fields->output_size() << " x " << _shared_fields->input_size() << ")" << std::endl;
+        << _shared_fields->output_size() << " x " << _hidden_size << ")" << std::endl;
     for (SizeType i = 0; i < _shared_fields->output_size(); ++i)
     {
         SizeType offset = i * _hidden_size;
-- 
2.43.0


From 4bba7902394243ebe74970e91f21ed29f8a76951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 51/57] fix: a profile does not report the times of a failed
 one

---
 profile/profile.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profile/profile.hpp b/profile/profile.hpp
index 450ff97..44c1a6f 100644
--- a/profile/profile.hpp
+++ b/profile/profile.hpp
@@ -120,6 +120,8 @@ public:
         std::function<void(SizeType)> function,
         SizeType num_tries, std::string profile_name)
     {
+        // A failed run may have left its durations.
+        _sw.reset();
         std::cout << msg << std::endl;
         profile(std::move(function), num_tries);
         std::cout << "completed " << _pretty_print() << std::endl;
-- 
2.43.0


From 213dd824162eaa0c423ab6c64fed5569b7aaa013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:09 +0000
Subject: [PATCH 52/57] fix: a stopwatch dumps all the digits of its durations

---
 profile/stopwatch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/profile/stopwatch.hpp b/profile/stopwatch.hpp
index 21ae8cc..003ebc0 100644
--- a/profile/stopwatch.hpp
+++ b/profile/stopwatch.hpp
@@ -37,6 +37,8 @@
 #include <algorithm>
 #include <numeric>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 namespace EdgeLearning {
 
@@ -140,7 +142,9 @@ public:
         }
         for (std::size_t i = 0; i < _durations.size(); ++i)
         {
-            f << _durations[i] << std::endl;
+            f << std::setprecision(
+                    std::numeric_limits<double>::max_digits10)
+                << _durations[i] << std::endl;
         }
         f.close();
     }
-- 
2.43.0


From d647cc864e8c7b75032203c57501a28bba83c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:25 +0000
Subject: [PATCH 53/57] fix: a directory is not read as a table

Reading a directory fails with an error the row counter ignored, so the
table had one row without content.
---
 source/parser/csv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 40e8d25..d537797 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -667,6 +667,11 @@ public:
         _rows_amount = static_cast<std::size_t>(
             std::count(std::istream_iterator<char>(file), 
                 std::istream_iterator<char>(), '\n'));
+        // A directory can be opened but not read.
+        if (file.bad())
+        {
+            throw std::runtime_error("Could not read file");
+        }
         // The last row could not be terminated by a newline.
         file.clear();
         file.seekg(0, std::ios_base::end);
-- 
2.43.0


From 1859bc7dfca9f385e3a4790da2eda2782d4648ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:44 +0000
Subject: [PATCH 54/57] fix: data sets of every element type can be parsed

Dataset<T>::parse handed the parsed doubles on without conversion and did
not compile for other element types.
---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 590bcdc..0282733 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -688,8 +688,9 @@ public:
         DatasetParser::LabelEncoding label_encoding = DatasetParser::LabelEncoding::DEFAULT_ENCODING,
         SizeType sequence_size = 1)
     {
+        auto data = dataset_parser.data_to_encoding(label_encoding);
         return Dataset<T>(
-                dataset_parser.data_to_encoding(label_encoding),
+                std::vector<T>(data.begin(), data.end()),
                 dataset_parser.encoding_feature_size(label_encoding),
                 sequence_size,
                 dataset_parser.encoding_labels_idx(label_encoding)
-- 
2.43.0


From 2c35df72f35058cc324d246c5bc5917095dd93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:21 +0000
Subject: [PATCH 55/57] fix: numbers are converted the same way in every locale

The text of numbers in tables, JSON documents and model files followed the
global locale: with a decimal comma a saved model could not be loaded and
the decimals of a table were dropped.
---
 source/parser/type_checker.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 255379f..d6c9cb7 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -106,6 +106,7 @@ template<typename T>
 inline bool convert(const std::string &s, T& ref)
 {
     std::stringstream ss{s};
+    ss.imbue(std::locale::classic());
     ss >> ref;
     return !ss.fail() && ss.eof();
 }
@@ -179,11 +180,16 @@ inline std::string convert<bool>(bool v)
 template<>
 inline std::string convert<double>(double v)
 {
-    auto ret = std::to_string(v);
+    // As std::to_string does, but in every locale.
+    std::ostringstream fixed;
+    fixed.imbue(std::locale::classic());
+    fixed << std::fixed << v;
+    auto ret = fixed.str();
     double back = 0.0;
     if (std::isfinite(v) && (!convert<double>(ret, back) || back != v))
     {
         std::ostringstream ss;
+        ss.imbue(std::locale::classic());
         ss.precision(std::numeric_limits<double>::max_digits10);
         ss << v;
         ret = ss.str();
-- 
2.43.0


From 99f62bbf193a410448f71db4951ad1dd2b8bd82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:23 +0000
Subject: [PATCH 56/57] fix: assigning a row or a cell does not change the
 types of its table

---
 source/parser/csv.hpp | 44 ++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d537797..16776d5 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -63,12 +63,12 @@ public:
     CSVField(std::string field, TypeChecker::Type& type, std::size_t col_index)
         : Parser()
         , _field{field}
-        , _type{type}
+        , _type{&type}
         , _col_index{col_index}
     {
-        if (_type == TypeChecker::Type::AUTO)
+        if (type == TypeChecker::Type::AUTO)
         {
-            _type = _tc(_field);
+            type = _tc(_field);
         }
     }
 
@@ -129,7 +129,7 @@ public:
      * \brief Field type getter.
      * \return const TypeChecker::Type&
      */
-    const TypeChecker::Type& type() const { return _type; }
+    const TypeChecker::Type& type() const { return *_type; }
 
     /**
      * \brief CSV column index gettere.
@@ -139,7 +139,7 @@ public:
 
 private:
     std::string _field;     ///< CSV field string.
-    TypeChecker::Type& _type;            ///< CSV field type.
+    TypeChecker::Type* _type;            ///< CSV field type.
     std::size_t _col_index; ///> CSV field column index.
 };
 
@@ -172,7 +172,7 @@ public:
         , _line{line}
         , _idx{row_idx}
         , _cols_amount{cols_amount}
-        , _types{types}
+        , _types{&types}
         , _separator{separator}
     {
         if((std::find(types.begin(), types.end(), TypeChecker::Type::AUTO) != types.end())
@@ -180,12 +180,12 @@ public:
             || types.size() != cols_amount) 
         {
             std::stringstream ss{line};
-            _types = std::vector<TypeChecker::Type>{};
+            types.clear();
             for (std::size_t i = 0; i < cols_amount; ++i)
             {
                 std::string s;
                 std::getline(ss, s, separator);
-                _types.push_back(_tc(s));
+                types.push_back(_tc(s));
             }
         }
     }
@@ -284,7 +284,7 @@ public:
         {
             if(i == idx)
             {
-                return CSVField{field, _types.at(idx), idx};
+                return CSVField{field, _types->at(idx), idx};
             }
 
             i++;
@@ -293,7 +293,7 @@ public:
         // getline does not yield an empty field at the end of the line.
         if (i == idx && (_line.empty() || _line.back() == _separator))
         {
-            return CSVField{std::string{}, _types.at(idx), idx};
+            return CSVField{std::string{}, _types->at(idx), idx};
         }
 
         throw std::runtime_error("CSV bad format: fields missing");
@@ -356,7 +356,7 @@ public:
         {
             std::string s;
             std::getline(ss, s, _separator);
-            ret.push_back(CSVField{s, _types.at(i), i});
+            ret.push_back(CSVField{s, _types->at(i), i});
         }
         return ret;
     }
@@ -423,7 +423,7 @@ public:
      * \brief Column types getter.
      * \return const std::vector<TypeChecker::Type>& The vector of column types.
      */
-    const std::vector<TypeChecker::Type>& types() const { return _types; } 
+    const std::vector<TypeChecker::Type>& types() const { return *_types; } 
     
     /**
      * \brief Getter of CSVRow index.
@@ -441,7 +441,7 @@ private:
     std::string _line;         ///< The line in string. 
     std::size_t _idx;          ///< The index of the CSV row.
     std::size_t _cols_amount;  ///< The column amount of the row.
-    std::vector<TypeChecker::Type>& _types; ///< The types of each field in the row.
+    std::vector<TypeChecker::Type>* _types; ///< The types of each field in the row.
     char _separator;           ///< The separator of each field.
 };
 
@@ -482,7 +482,7 @@ public:
     CSVIterator(const CSVIterator& obj)
         : _fn{obj._fn}
         , _row{std::string(), 0, obj._row._cols_amount, 
-            obj._row._types, obj._row._separator}
+            *obj._row._types, obj._row._separator}
         , _req_row_idx{obj._req_row_idx}
         , _stream{obj._fn}
     {
@@ -737,8 +737,22 @@ public:
      * \brief Copy assignment operator.
      * \param obj Object to copy.
      * \return CSV& The updated object.
+     * Its rows keep referring to its own types.
      */
-    CSV& operator=(const CSV& obj) = default;
+    CSV& operator=(const CSV& obj)
+    {
+        _fn = obj._fn;
+        _types = obj._types;
+        _row_header = CSVRow{obj._row_header._line, obj._row_header._idx,
+            obj._cols_amount, _types, obj._separator};
+        _row_cache = CSVRow{obj._row_cache._line, obj._row_cache._idx,
+            obj._cols_amount, _types, obj._separator};
+        _cols_amount = obj._cols_amount;
+        _rows_amount = obj._rows_amount;
+        _separator = obj._separator;
+        _labels_idx = obj._labels_idx;
+        return *this;
+    }
 
     /**
      * \brief Destroy the CSV object.
-- 
2.43.0


From 701b834e1e7cb4e49a26073b9e1878d4c80da033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:15 +0000
Subject: [PATCH 57/57] fix: Adam does not carry the history of a destroyed
 layer over to another

---
 source/dnn/adam_optimizer.cpp | 12 +++++++++---
 source/dnn/adam_optimizer.hpp |  6 ++++--
 source/dnn/layer.hpp          |  9 +++++++++
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/source/dnn/adam_optimizer.cpp b/source/dnn/adam_optimizer.cpp
index 53dd924..eb9f18b 100644
--- a/source/dnn/adam_optimizer.cpp
+++ b/source/dnn/adam_optimizer.cpp
@@ -43,9 +43,15 @@ void AdamOptimizer::_train(Layer& layer_from, Layer& layer_to)
     SizeType param_count = layer_to.param_count();
     if (param_count == 0) return;
 
-    // The moments of each parameter, kept by the parameters they belong to,
-    // that a layer shares with its clones.
-    State& state = _states[&layer_to.param(0)];
+    // The history of a layer ends with the layer and its clones.
+    for (auto it = _states.begin(); it != _states.end(); )
+    {
+        it = it->first.expired() ? _states.erase(it) : std::next(it);
+    }
+
+    // The moments of each parameter, kept by the layer they belong to, that
+    // shares its parameters with its clones.
+    State& state = _states[layer_to.identity()];
     state.m.resize(param_count, NumType{0.0});
     state.v.resize(param_count, NumType{0.0});
     ++state.t;
diff --git a/source/dnn/adam_optimizer.hpp b/source/dnn/adam_optimizer.hpp
index 18c7486..f7a1c46 100644
--- a/source/dnn/adam_optimizer.hpp
+++ b/source/dnn/adam_optimizer.hpp
@@ -32,6 +32,7 @@
 #include "optimizer.hpp"
 
 #include <map>
+#include <memory>
 
 
 namespace EdgeLearning {
@@ -94,8 +95,9 @@ private:
         SizeType t{0}; ///< \brief Incremental timestamp (temperature).
     };
 
-    /// \brief The histories, by the address of the first layer parameter.
-    std::map<const NumType*, State> _states;
+    /// \brief The histories, by the identity of the layer.
+    std::map<std::weak_ptr<const void>, State,
+             std::owner_less<std::weak_ptr<const void>>> _states;
 };
 
 } // namespace EdgeLearning
diff --git a/source/dnn/layer.hpp b/source/dnn/layer.hpp
index c95c009..d9a87ee 100644
--- a/source/dnn/layer.hpp
+++ b/source/dnn/layer.hpp
@@ -260,6 +260,15 @@ public:
      */
     virtual void print() const = 0;
 
+    /**
+     * \brief What the layer has in common with its clones, and with no other
+     * layer: it tells apart layers that live one after the other at the same
+     * address.
+     * \return std::shared_ptr<const void> The identity of the layer.
+     */
+    [[nodiscard]] std::shared_ptr<const void> identity() const noexcept
+    { return _shared_fields; }
+
     /**
      * \brief Virtual method information dump for debugging purposes.
      * \return std::string const& The layer name.
-- 
2.43.0

