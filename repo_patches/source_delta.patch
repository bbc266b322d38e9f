From d3f64b29f4acd4d431aa4051fbdd03d2280e649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:52 +0000
Subject: [PATCH 01/29] fix: write both bytes of the NPY header length

---
 include/npy/npy.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..74d42b8 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -210,9 +210,13 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
     end.back() = '\n';
   }
 
+  if (dict_length > 0xFFFF) {
+    throw std::length_error("shape");
+  }
+
   const char header[STATIC_HEADER_LENGTH] = {
       static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
+      static_cast<char>(dict_length), static_cast<char>(dict_length >> 8)};
   output.write(header, STATIC_HEADER_LENGTH);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
-- 
2.43.0


From 32e0f00d7bb42726400f04868c282aa19572ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 02/29] fix: swap the bytes of each half of a complex value
 separately

---
 src/dtype.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..09e2b3b 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -416,14 +416,14 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
       output.put(start[3]);
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[7]);
+      output.put(start[6]);
+      output.put(start[5]);
+      output.put(start[4]);
     }
   }
 }
@@ -439,14 +439,14 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
       ptr[3] = GETC(input);
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[7] = GETC(input);
+      ptr[6] = GETC(input);
+      ptr[5] = GETC(input);
+      ptr[4] = GETC(input);
     }
   }
 }
@@ -460,14 +460,6 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
       output.put(start[7]);
       output.put(start[6]);
       output.put(start[5]);
@@ -476,6 +468,14 @@ void write_values<>(std::basic_ostream<char> &output,
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[15]);
+      output.put(start[14]);
+      output.put(start[13]);
+      output.put(start[12]);
+      output.put(start[11]);
+      output.put(start[10]);
+      output.put(start[9]);
+      output.put(start[8]);
     }
   }
 }
@@ -491,14 +491,6 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
       ptr[7] = GETC(input);
       ptr[6] = GETC(input);
       ptr[5] = GETC(input);
@@ -507,6 +499,14 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[15] = GETC(input);
+      ptr[14] = GETC(input);
+      ptr[13] = GETC(input);
+      ptr[12] = GETC(input);
+      ptr[11] = GETC(input);
+      ptr[10] = GETC(input);
+      ptr[9] = GETC(input);
+      ptr[8] = GETC(input);
     }
   }
 }
-- 
2.43.0


From 000851ab6b5790231f201858baa89b163462b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 03/29] fix: keep NUL characters inside Unicode elements

---
 src/dtype.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 09e2b3b..efb6a43 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -570,12 +570,13 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
-      if (value == 0) {
-        continue;
-      }
 
       ptr->push_back(static_cast<wchar_t>(value));
     }
+
+    while (!ptr->empty() && ptr->back() == 0) {
+      ptr->pop_back();
+    }
   }
 }
 
-- 
2.43.0


From 649e22ce8da77c18727c5bab9982b94634e670fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 04/29] fix: refuse unknown type codes instead of reading them
 as int8

---
 src/dtype.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index efb6a43..0a4927f 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -17,7 +17,8 @@ std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
     "|i1", "|u1", "<i2", "<u2", "<i4",  "<u4", "<i8",
     "<u8", "<f4", "<f8", "<c8", "<c16", "|b1"};
 
-std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
+const std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>>
+    DTYPE_MAP = {
     {"|u1", {npy::data_type_t::UINT8, npy::endian_t::NATIVE}},
     {"|i1", {npy::data_type_t::INT8, npy::endian_t::NATIVE}},
     {"<u2", {npy::data_type_t::UINT16, npy::endian_t::LITTLE}},
@@ -61,7 +62,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto it = DTYPE_MAP.find(dtype);
+  if (it == DTYPE_MAP.end()) {
+    throw std::invalid_argument("Unsupported dtype: " + dtype);
+  }
+
+  return it->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From 063799296a7e361f000883895a1de3cb01813b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 05/29] fix: do not share a static buffer between header
 parsers

---
 src/npy.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..f1a0e69 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -7,9 +7,6 @@
 #include "npy/npy.h"
 
 namespace {
-const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
-
 void read(std::istream &input, char expected) {
   char actual;
   input.get(actual);
@@ -17,8 +14,8 @@ void read(std::istream &input, char expected) {
 }
 
 void read(std::istream &input, const std::string &expected) {
-  input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
+  std::string actual(expected.length(), '\0');
+  input.read(&actual[0], actual.length());
   assert(actual == expected);
 }
 
@@ -30,15 +27,12 @@ void skip_whitespace(std::istream &input) {
 }
 
 std::string read_to(std::istream &input, char delim) {
-  if (input.peek() == delim) {
-    return "";
+  std::string token;
+  while (input.peek() != delim && !input.eof()) {
+    token.push_back(static_cast<char>(input.get()));
   }
 
-  input.get(BUFFER, BUFFER_SIZE, delim);
-  auto length = input.gcount();
-  assert(length < BUFFER_SIZE);
-
-  return std::string(BUFFER, BUFFER + length);
+  return token;
 }
 
 std::string read_string(std::istream &input) {
-- 
2.43.0


From 784cc9b5e2a499f50a25d017420acffd9b76da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 06/29] fix: refuse malformed NPY headers

---
 include/npy/npy.h | 25 ++++++++++++++-------
 src/npy.cpp       | 57 ++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 74d42b8..1f84bfd 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -301,24 +301,33 @@ template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
   std::uint8_t header[STATIC_HEADER_LENGTH];
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  if (!input || header[0] != 0x93 || header[1] != 'N' || header[2] != 'U' ||
+      header[3] != 'M' || header[4] != 'P' || header[5] != 'Y') {
+    throw std::runtime_error("Invalid NPY header");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
     std::uint8_t extra[2];
     input.read(reinterpret_cast<CHAR *>(extra), 2);
-    dict_length =
-        header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+    if (!input) {
+      throw std::runtime_error("Invalid NPY header");
+    }
+
+    dict_length = header[8] | (header[9] << 8) | (extra[0] << 16) |
+                  (static_cast<size_t>(extra[1]) << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (!input) {
+    throw std::runtime_error("Invalid NPY header");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
diff --git a/src/npy.cpp b/src/npy.cpp
index f1a0e69..7387461 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -8,15 +8,17 @@
 
 namespace {
 void read(std::istream &input, char expected) {
-  char actual;
-  input.get(actual);
-  assert(actual == expected);
+  if (input.get() != expected) {
+    throw std::runtime_error("Invalid NPY header");
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
   std::string actual(expected.length(), '\0');
   input.read(&actual[0], actual.length());
-  assert(actual == expected);
+  if (actual != expected) {
+    throw std::runtime_error("Invalid NPY header");
+  }
 }
 
 void skip_whitespace(std::istream &input) {
@@ -56,20 +58,31 @@ bool read_bool(std::istream &input) {
 
 std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
-  std::istringstream tuple(read_to(input, ')'));
-  read(input, ')');
+  skip_whitespace(input);
 
   std::vector<size_t> shape;
   size_t size;
+  bool comma = true;
+
+  while (input.peek() != ')') {
+    if (!comma || !std::isdigit(input.peek()) || !(input >> size)) {
+      throw std::runtime_error("Invalid shape in NPY header");
+    }
 
-  while (tuple >> size) {
     shape.push_back(size);
-    if (tuple.peek() == ',') {
-      read(tuple, ',');
-      skip_whitespace(tuple);
+    skip_whitespace(input);
+    comma = input.peek() == ',';
+    if (comma) {
+      read(input, ',');
+      skip_whitespace(input);
     }
   }
 
+  read(input, ')');
+  if (shape.size() == 1 && !comma) {
+    throw std::runtime_error("Invalid shape in NPY header");
+  }
+
   return shape;
 }
 } // namespace
@@ -77,16 +90,26 @@ std::vector<size_t> read_shape(std::istream &input) {
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
   std::istringstream input(dictionary);
+  bool has_descr = false;
+  bool has_fortran_order = false;
+  bool has_shape = false;
   read(input, '{');
+  skip_whitespace(input);
   while (input.peek() != '}') {
-    skip_whitespace(input);
     std::string key = read_string(input);
     skip_whitespace(input);
     read(input, ':');
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      has_descr = true;
+      if (dtype_code.size() > 2 && dtype_code[1] == 'U') {
+        if ((dtype_code[0] != '<' && dtype_code[0] != '>') ||
+            dtype_code.find_first_not_of("0123456789", 2) !=
+                std::string::npos) {
+          throw std::runtime_error("Invalid dtype: " + dtype_code);
+        }
+
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
@@ -98,17 +121,25 @@ header_info::header_info(const std::string &dictionary) {
 
     } else if (key == "fortran_order") {
       fortran_order = read_bool(input);
+      has_fortran_order = true;
     } else if (key == "shape") {
       shape = read_shape(input);
+      has_shape = true;
     } else {
       throw std::runtime_error("Unsupported key: " + key);
     }
 
-    read(input, ',');
     skip_whitespace(input);
+    if (input.peek() != '}') {
+      read(input, ',');
+      skip_whitespace(input);
+    }
   }
 
   read(input, '}');
+  if (!has_descr || !has_fortran_order || !has_shape) {
+    throw std::runtime_error("Missing key in NPY header");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
-- 
2.43.0


From ec0dd27bba5e2265aebf46670caa1180318bc4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 07/29] fix: refuse NPY input that ends before the data is
 complete

---
 include/npy/npy.h | 3 +++
 src/dtype.cpp     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 1f84bfd..f3351eb 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -762,6 +762,9 @@ public:
     }
 
     read_values(input, result.m_values.data(), result.m_values.size(), info);
+    if (input.fail()) {
+      throw std::runtime_error("NPY data is truncated");
+    }
 
     return result;
   }
diff --git a/src/dtype.cpp b/src/dtype.cpp
index 0a4927f..aa12568 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -577,6 +577,10 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[0] = GETC(input);
       }
 
+      if (!input) {
+        return;
+      }
+
       ptr->push_back(static_cast<wchar_t>(value));
     }
 
-- 
2.43.0


From 16e98474fae8cba0862adb55943d87fab7edef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 08/29] fix: initialise max_element_length in the header_info
 constructor

---
 src/npy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/npy.cpp b/src/npy.cpp
index 7387461..211a25a 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -148,6 +148,7 @@ header_info::header_info(data_type_t dtype, npy::endian_t endianness,
   this->endianness = endianness;
   this->fortran_order = fortran_order;
   this->shape = shape;
+  this->max_element_length = 0;
 }
 
 header_info peek(const std::string &path) {
-- 
2.43.0


From db9e2e570d6da966ddebf8fa4fce5e63ed553c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 09/29] fix: check the number of dimensions of an unsigned
 multi-index

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index f3351eb..947e423 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -992,6 +992,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From 324505612b253a3d71cde783e71df6f8fa8b860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 10/29] fix: refuse shapes whose number of elements overflows

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 947e423..7f9f7b1 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -1017,6 +1017,10 @@ private:
   static size_t get_size(const std::vector<size_t> &shape) {
     size_t size = 1;
     for (auto &dim : shape) {
+      if (dim != 0 && size > SIZE_MAX / dim) {
+        throw std::invalid_argument("shape");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From d000576c29a8bbcfada86f66b9f093ba28d6429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 11/29] fix: construct boolean from the truth value of its
 argument

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 7f9f7b1..6616fb3 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -107,7 +107,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0


From 90e109046ba58bfef65e0761fd5d28746f750404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 12/29] fix: return the tensor from npzfilereader::read

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 6616fb3..0b1c625 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -660,7 +660,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From b2b94c19a8e2f7c3ad84d963f1698aa3590b7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 13/29] fix: count the tag and size of the ZIP64 field in the
 extra field length

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..e5dca23 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -111,6 +111,10 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
     length += 8;
   }
 
+  if (length > 0) {
+    length += 4; // tag and size of the ZIP64 field itself
+  }
+
   return length;
 }
 
-- 
2.43.0


From 6cb04edf1c6a39d0c73e821aca2aa62000d9ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 14/29] fix: keep entry sizes and offsets of 4 GiB and more

---
 src/npz.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index e5dca23..7b1560b 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -351,8 +351,8 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
-  std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
-  std::uint32_t compressed_size = 0;
+  std::uint64_t uncompressed_size = bytes.size();
+  std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
   std::uint32_t checksum = npy_crc32(bytes);
   if (compression_method == compression_method_t::STORED) {
@@ -360,7 +360,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     compressed_size = uncompressed_size;
   } else if (compression_method == compression_method_t::DEFLATED) {
     compressed_bytes = npy_deflate(std::move(bytes));
-    compressed_size = static_cast<std::uint32_t>(compressed_bytes.size());
+    compressed_size = compressed_bytes.size();
   } else {
     throw std::invalid_argument("Unsupported compression method");
   }
@@ -370,7 +370,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(output.tellp())};
+                      static_cast<std::uint64_t>(output.tellp())};
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
-- 
2.43.0


From 4f281a37f19dd082303383b0fc32af8567b7abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 15/29] fix: compute the CRC-32 over all bytes of entries of 4
 GiB and more

---
 src/zip.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..6b9bc70 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -21,8 +21,7 @@ namespace npy {
 std::uint32_t npy_crc32(const std::string &bytes) {
   uLong crc = ::crc32(0L, Z_NULL, 0);
   const Bytef *buf = reinterpret_cast<const Bytef *>(bytes.data());
-  uInt len = static_cast<uInt>(bytes.size());
-  return ::crc32(crc, buf, len);
+  return ::crc32(crc, buf, bytes.size());
 }
 
 std::string npy_deflate(std::string &&bytes) {
-- 
2.43.0


From c18d786c315a85cbf6f32e37a5834ef63aa373cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 16/29] fix: refuse to close an NPZ archive whose directory
 cannot be expressed

---
 src/npz.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 7b1560b..058f8f7 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -337,13 +337,27 @@ void read_entries(std::istream &input,
 }
 
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
+  if (entries.size() > 0xFFFF) {
+    throw std::length_error("Too many entries in NPZ file");
+  }
+
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint32_t>(output.tellp());
+  const std::uint64_t offset = output.tellp();
+  if (offset > 0xFFFFFFFF) {
+    throw std::length_error("NPZ file is too large");
+  }
+
+  dir.offset = static_cast<std::uint32_t>(offset);
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint32_t>(output.tellp()) - dir.offset;
+  const std::uint64_t size = static_cast<std::uint64_t>(output.tellp()) - offset;
+  if (size > 0xFFFFFFFF) {
+    throw std::length_error("NPZ directory is too large");
+  }
+
+  dir.size = static_cast<std::uint32_t>(size);
   dir.num_entries = static_cast<std::uint16_t>(entries.size());
   write_end_of_central_directory(output, dir);
 }
@@ -444,8 +458,10 @@ npzstringwriter::npzstringwriter(compression_method_t compression,
       m_endianness(endianness) {}
 
 npzstringwriter::~npzstringwriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (const std::exception &) {
+    // a destructor must not throw
   }
 }
 
@@ -486,8 +502,10 @@ npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
       m_compression_method(compression), m_endianness(endianness) {}
 
 npzfilewriter::~npzfilewriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (const std::exception &) {
+    // a destructor must not throw
   }
 }
 
-- 
2.43.0


From 29ec4f5e988203cef6663a55a43cfd17b412e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 17/29] fix: refuse NPZ entry names longer than the format
 allows

---
 src/npz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 058f8f7..a306a09 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -365,6 +365,10 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
+  if (filename.length() > 0xFFFF) {
+    throw std::length_error("filename");
+  }
+
   std::uint64_t uncompressed_size = bytes.size();
   std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
-- 
2.43.0


From b8461894ea9b99e29ab970416f3f5deff41a0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 18/29] fix: let a reader recover after reading a damaged entry

---
 src/npz.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index a306a09..305e020 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -413,6 +413,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear(); // an earlier read may have failed
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
-- 
2.43.0


From 1d1a10f26e27490380b65442bc008cf798f0a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 19/29] fix: report files that could not be written completely

---
 include/npy/npy.h |  4 ++++
 src/npz.cpp       | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 0b1c625..467e7df 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -280,6 +280,10 @@ void save(const std::string &path, T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (!output) {
+    throw std::runtime_error("Unable to write " + path);
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
diff --git a/src/npz.cpp b/src/npz.cpp
index 305e020..ee9f58a 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -524,13 +524,23 @@ void npzfilewriter::write_file(const std::string &filename,
 
   ::write_file(m_output, m_entries, filename, m_compression_method,
                std::move(bytes));
+  if (!m_output) {
+    throw std::runtime_error("Unable to write NPZ file");
+  }
 }
 
 void npzfilewriter::close() {
   if (!m_closed) {
+    if (!m_output) {
+      throw std::runtime_error("Unable to write NPZ file");
+    }
+
     ::close(m_output, m_entries);
     m_closed = true;
     m_output.close();
+    if (!m_output) {
+      throw std::runtime_error("Unable to write NPZ file");
+    }
   }
 }
 
-- 
2.43.0


From 06a48a8e202244b9581de3b61fde97f54263e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 20/29] fix: do not compare uninitialised bytes with a ZIP
 signature

---
 src/npz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index ee9f58a..127c9c3 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -84,7 +84,7 @@ std::uint64_t read64(std::istream &stream) {
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
-  std::array<std::uint8_t, 4> actual;
+  std::array<std::uint8_t, 4> actual = {};
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
   if (actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
-- 
2.43.0


From f463c10bb4ac624a7d68ba8fed359d4b20ab512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 21/29] fix: skip extra fields and comments that other tools
 add to NPZ entries

---
 src/npz.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 127c9c3..7ac9fa5 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -141,13 +141,7 @@ void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
 }
 
 void read_zip64_extra(std::istream &stream, npy::file_entry &header,
-                      bool include_offset) {
-  std::uint16_t tag = read16(stream);
-  if (tag != ZIP64_TAG) {
-    throw std::runtime_error("Invalid tag (expected ZIP64)");
-  }
-
-  std::uint16_t actual_size = read16(stream);
+                      bool include_offset, std::uint16_t actual_size) {
   std::uint16_t expected_size = 0;
 
   if (header.uncompressed_size == ZIP64_PLACEHOLDER) {
@@ -175,6 +169,27 @@ void read_zip64_extra(std::istream &stream, npy::file_entry &header,
   }
 }
 
+void read_extra_fields(std::istream &stream, npy::file_entry &header,
+                       bool include_offset, std::uint16_t length) {
+  while (length >= 4) {
+    std::uint16_t tag = read16(stream);
+    std::uint16_t size = read16(stream);
+    length -= 4;
+    if (size > length) {
+      throw std::runtime_error("Invalid extra field");
+    }
+
+    length -= size;
+    if (tag == ZIP64_TAG) {
+      read_zip64_extra(stream, header, include_offset, size);
+    } else {
+      stream.seekg(size, std::ios::cur);
+    }
+  }
+
+  stream.seekg(length, std::ios::cur);
+}
+
 void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
   std::uint16_t general_purpose_big_flag = 0;
   write(stream, general_purpose_big_flag);
@@ -227,7 +242,7 @@ npy::file_entry read_local_header(std::istream &stream) {
   entry.filename = std::string(buffer.begin(), buffer.end());
 
   if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, false);
+    read_extra_fields(stream, entry, false, extra_field_length);
   }
 
   return entry;
@@ -268,7 +283,7 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   npy::file_entry entry;
   std::uint16_t filename_length = read_shared_header(stream, entry);
   std::uint16_t extra_field_length = read16(stream);
-  read16(stream); // file comment length
+  std::uint16_t file_comment_length = read16(stream);
   read16(stream); // disk number start
   read16(stream); // internal file attributes
   read32(stream); // external file attributes
@@ -279,9 +294,11 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
   entry.filename = std::string(buffer.begin(), buffer.end());
 
   if (extra_field_length > 0) {
-    read_zip64_extra(stream, entry, true);
+    read_extra_fields(stream, entry, true, extra_field_length);
   }
 
+  stream.seekg(file_comment_length, std::ios::cur);
+
   return entry;
 }
 
-- 
2.43.0


From 41ee1de028974f445b61e07d45f3b7b8a865ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 22/29] fix: clear the compressor's dictionary, whose unwritten
 part tdefl_find_match reads

---
 src/miniz/miniz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 91c1abe..417e6c6 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -1782,7 +1782,7 @@ tdefl_status tdefl_init(tdefl_compressor *d, tdefl_put_buf_func_ptr pPut_buf_fun
   d->m_pPut_buf_func = pPut_buf_func; d->m_pPut_buf_user = pPut_buf_user;
   d->m_flags = (mz_uint)(flags); d->m_max_probes[0] = 1 + ((flags & 0xFFF) + 2) / 3; d->m_greedy_parsing = (flags & TDEFL_GREEDY_PARSING_FLAG) != 0;
   d->m_max_probes[1] = 1 + (((flags & 0xFFF) >> 2) + 2) / 3;
-  if (!(flags & TDEFL_NONDETERMINISTIC_PARSING_FLAG)) MZ_CLEAR_OBJ(d->m_hash);
+  if (!(flags & TDEFL_NONDETERMINISTIC_PARSING_FLAG)) { MZ_CLEAR_OBJ(d->m_hash); MZ_CLEAR_OBJ(d->m_dict); } // matches are looked for past the bytes filled in so far
   d->m_lookahead_pos = d->m_lookahead_size = d->m_dict_size = d->m_total_lz_bytes = d->m_lz_code_buf_dict_pos = d->m_bits_in = 0;
   d->m_output_flush_ofs = d->m_output_flush_remaining = d->m_finished = d->m_block_index = d->m_bit_buffer = d->m_wants_to_finish = 0;
   d->m_pLZ_code_buf = d->m_lz_code_buf + 1; d->m_pLZ_flags = d->m_lz_code_buf; d->m_num_flags_left = 8;
-- 
2.43.0


From 6af512d4d7f49edecb56201080bf3c23f143a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 23/29] fix: clear the decompressor's dictionary, which a
 damaged stream could read before it was written

---
 src/miniz/miniz.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 417e6c6..42b76c9 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -274,6 +274,7 @@ int mz_inflateInit2(mz_streamp pStream, int window_bits)
   pDecomp->m_last_status = TINFL_STATUS_NEEDS_MORE_INPUT;
   pDecomp->m_first_call = 1;
   pDecomp->m_has_flushed = 0;
+  MZ_CLEAR_OBJ(pDecomp->m_dict); // a damaged stream can refer to bytes before its beginning
   pDecomp->m_window_bits = window_bits;
 
   return MZ_OK;
-- 
2.43.0


From bf23a786c67155adc501b87498baefef0d28aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 24/29] fix: report an NPZ entry that could not be assembled in
 memory

---
 include/npy/npy.h |  6 ++++++
 src/npz.cpp       | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 467e7df..f74dc21 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -454,6 +454,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (!output) {
+      throw std::runtime_error("Unable to write NPZ entry");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
@@ -528,6 +531,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (!output) {
+      throw std::runtime_error("Unable to write NPZ entry");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
diff --git a/src/npz.cpp b/src/npz.cpp
index 7ac9fa5..30f02fa 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -497,12 +497,22 @@ void npzstringwriter::write_file(const std::string &filename,
 
   ::write_file(m_output, m_entries, filename, m_compression_method,
                std::move(bytes));
+  if (!m_output) {
+    throw std::runtime_error("Unable to write NPZ file");
+  }
 }
 
 void npzstringwriter::close() {
   if (!m_closed) {
+    if (!m_output) {
+      throw std::runtime_error("Unable to write NPZ file");
+    }
+
     ::close(m_output, m_entries);
     m_closed = true;
+    if (!m_output) {
+      throw std::runtime_error("Unable to write NPZ file");
+    }
   }
 }
 
-- 
2.43.0


From 01dc930512755efda8e168840f09b570ab812999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 25/29] fix: report an NPY header that could not be assembled
 in memory

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index f74dc21..7ad840a 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -199,6 +199,10 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
   }
 
   buff << "), }";
+  if (!buff) {
+    throw std::runtime_error("Unable to write NPY header");
+  }
+
   std::string dictionary = buff.str();
   auto dict_length = dictionary.size() + 1;
   std::string end = "\n";
-- 
2.43.0


From e5531c7bc4a075a4a52a8d32a3222f475e5e7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 26/29] fix: release the compressor's state when memory runs
 out

---
 src/zip.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 6b9bc70..a26cceb 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -31,6 +31,10 @@ std::string npy_deflate(std::string &&bytes) {
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
 
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
+
   /* allocate deflate state */
   strm.zalloc = Z_NULL;
   strm.zfree = Z_NULL;
@@ -41,10 +45,6 @@ std::string npy_deflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize deflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* compress until end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
@@ -93,6 +93,10 @@ std::string npy_inflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
+
   /* allocate inflate state */
   strm.zalloc = Z_NULL;
   strm.zfree = Z_NULL;
@@ -104,10 +108,6 @@ std::string npy_inflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize inflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* decompress until deflate stream ends or end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
-- 
2.43.0


From 39d05542ab9f6586a03992c95e88f920daee7943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:40 +0000
Subject: [PATCH 27/29] fix: refuse DEFLATE codes that are not defined

---
 src/miniz/miniz.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 42b76c9..6e4bb89 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -592,7 +592,8 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         for (i = 0; i < r->m_table_sizes[r->m_type]; ++i) total_syms[pTable->m_code_size[i]]++;
         used_syms = 0, total = 0; next_code[0] = next_code[1] = 0;
         for (i = 1; i <= 15; ++i) { used_syms += total_syms[i]; next_code[i + 1] = (total = ((total + total_syms[i]) << 1)); }
-        if ((65536 != total) && (used_syms > 1))
+        // The only incomplete sets are those of no code or of a single one-bit code.
+        if ((65536 != total) && ((used_syms > 1) || (used_syms != total_syms[1])))
         {
           TINFL_CR_RETURN_FOREVER(35, TINFL_STATUS_FAILED);
         }
@@ -610,12 +611,18 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
           }
           tree_cur -= ((rev_code >>= 1) & 1); pTable->m_tree[-tree_cur - 1] = (mz_int16)sym_index;
         }
+        if (65536 != total)
+        {
+          // Codes without a symbol decode as one past the last valid symbol, which is refused below.
+          mz_int16 k = (mz_int16)((1 << 9) | (r->m_type == 0 ? 286 : (r->m_type == 1 ? 30 : 19)));
+          for (i = 0; i < TINFL_FAST_LOOKUP_SIZE; ++i) if (!pTable->m_look_up[i]) pTable->m_look_up[i] = k;
+        }
         if (r->m_type == 2)
         {
           for (counter = 0; counter < (r->m_table_sizes[0] + r->m_table_sizes[1]); )
           {
             mz_uint s; TINFL_HUFF_DECODE(16, dist, &r->m_tables[2]); if (dist < 16) { r->m_len_codes[counter++] = (mz_uint8)dist; continue; }
-            if ((dist == 16) && (!counter))
+            if (((dist == 16) && (!counter)) || (dist > 18))
             {
               TINFL_CR_RETURN_FOREVER(17, TINFL_STATUS_FAILED);
             }
@@ -683,11 +690,19 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
           }
         }
         if ((counter &= 511) == 256) break;
+        if (counter > 285)
+        {
+          TINFL_CR_RETURN_FOREVER(54, TINFL_STATUS_FAILED);
+        }
 
         num_extra = s_length_extra[counter - 257]; counter = s_length_base[counter - 257];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(25, extra_bits, num_extra); counter += extra_bits; }
 
         TINFL_HUFF_DECODE(26, dist, &r->m_tables[1]);
+        if (dist > 29)
+        {
+          TINFL_CR_RETURN_FOREVER(55, TINFL_STATUS_FAILED);
+        }
         num_extra = s_dist_extra[dist]; dist = s_dist_base[dist];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
 
-- 
2.43.0


From 73727fb5ed6dcefce8745442074a96ca843ac846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:19 +0000
Subject: [PATCH 28/29] fix: keep decompressing when the input ends before the
 output

---
 src/miniz/miniz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 6e4bb89..f77aced 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -369,7 +369,7 @@ int mz_inflate(mz_streamp pStream, int flush)
        else if (!pStream->avail_out)
           return MZ_BUF_ERROR;
     }
-    else if ((status == TINFL_STATUS_DONE) || (!pStream->avail_in) || (!pStream->avail_out) || (pState->m_dict_avail))
+    else if ((status == TINFL_STATUS_DONE) || ((!pStream->avail_in) && (status != TINFL_STATUS_HAS_MORE_OUTPUT)) || (!pStream->avail_out) || (pState->m_dict_avail))
       break;
   }
 
-- 
2.43.0


From 68d87838da2e14c3703c8362f23218373b47b9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 29/29] fix: give both sizes in the ZIP64 field of a local
 header

---
 src/npz.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 30f02fa..35e8794 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -96,14 +96,21 @@ void assert_sig(std::istream &stream,
   }
 }
 
+bool has_zip64_size(const npy::file_entry &header) {
+  return header.compressed_size > ZIP64_LIMIT ||
+         header.uncompressed_size > ZIP64_LIMIT;
+}
+
 std::uint16_t determine_extra_length(const npy::file_entry &header,
                                      bool include_offset) {
   std::uint16_t length = 0;
-  if (header.compressed_size > ZIP64_LIMIT) {
+  // a local header (without an offset) has to give both sizes or neither
+  const bool both_sizes = !include_offset && has_zip64_size(header);
+  if (both_sizes || header.compressed_size > ZIP64_LIMIT) {
     length += 8;
   }
 
-  if (header.uncompressed_size > ZIP64_LIMIT) {
+  if (both_sizes || header.uncompressed_size > ZIP64_LIMIT) {
     length += 8;
   }
 
@@ -121,11 +128,12 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
 void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
                        bool include_offset) {
   std::vector<std::uint64_t> extra;
-  if (header.uncompressed_size > ZIP64_LIMIT) {
+  const bool both_sizes = !include_offset && has_zip64_size(header);
+  if (both_sizes || header.uncompressed_size > ZIP64_LIMIT) {
     extra.push_back(header.uncompressed_size);
   }
 
-  if (header.compressed_size > ZIP64_LIMIT) {
+  if (both_sizes || header.compressed_size > ZIP64_LIMIT) {
     extra.push_back(header.compressed_size);
   }
 
@@ -190,14 +198,21 @@ void read_extra_fields(std::istream &stream, npy::file_entry &header,
   stream.seekg(length, std::ios::cur);
 }
 
-void write_shared_header(std::ostream &stream, const npy::file_entry &header) {
+void write_shared_header(std::ostream &stream, const npy::file_entry &header,
+                         bool both_sizes) {
   std::uint16_t general_purpose_big_flag = 0;
   write(stream, general_purpose_big_flag);
   write(stream, header.compression_method);
   stream.write(reinterpret_cast<const char *>(TIME.data()), TIME.size());
   write(stream, header.crc32);
-  write32(stream, header.compressed_size);
-  write32(stream, header.uncompressed_size);
+  if (both_sizes) {
+    write(stream, ZIP64_PLACEHOLDER);
+    write(stream, ZIP64_PLACEHOLDER);
+  } else {
+    write32(stream, header.compressed_size);
+    write32(stream, header.uncompressed_size);
+  }
+
   write(stream, static_cast<std::uint16_t>(header.filename.length()));
 }
 
@@ -217,7 +232,7 @@ void write_local_header(std::ostream &stream, const npy::file_entry &header,
   stream.write(reinterpret_cast<const char *>(LOCAL_HEADER_SIG.data()),
                LOCAL_HEADER_SIG.size());
   write(stream, zip64 ? ZIP64_VERSION : STANDARD_VERSION);
-  write_shared_header(stream, header);
+  write_shared_header(stream, header, has_zip64_size(header));
   std::uint16_t extra_field_length = determine_extra_length(header, false);
   write(stream, extra_field_length);
   stream.write(header.filename.data(), header.filename.length());
@@ -255,7 +270,7 @@ void write_central_directory_header(std::ostream &stream,
                CD_HEADER_SIG.size());
   write(stream, STANDARD_VERSION);
   write(stream, extra_field_length > 0 ? ZIP64_VERSION : STANDARD_VERSION);
-  write_shared_header(stream, header);
+  write_shared_header(stream, header, false);
   write(stream, extra_field_length);
   std::uint16_t file_comment_length = 0;
   write(stream, file_comment_length);
-- 
2.43.0

