From 9f1859ad64d40a0cfa661d60a05473d771bbc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 01/29] fix: write both bytes of the NPY header length

Headers longer than 255 bytes (many or large dimensions) were written with a
truncated length field and could not be read back.
---
 include/npy/npy.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 4251750..56c8409 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -210,9 +210,14 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
     end.back() = '\n';
   }
 
+  if (dict_length > 0xFFFF) {
+    throw std::length_error("header too large for NPY format 1.0");
+  }
+
   const char header[STATIC_HEADER_LENGTH] = {
       static_cast<char>(0x93),        'N', 'U', 'M', 'P', 'Y', 0x01, 0x00,
-      static_cast<char>(dict_length), 0x00};
+      static_cast<char>(dict_length & 0xFF),
+      static_cast<char>(dict_length >> 8)};
   output.write(header, STATIC_HEADER_LENGTH);
   output.write(reinterpret_cast<const CHAR *>(dictionary.data()),
                dictionary.length());
-- 
2.43.0


From e36b206487851a256522d77c517a147a775f09ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 02/29] fix: return the tensor from npzfilereader::read<T,
 TENSOR>

---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 56c8409..3e4dd33 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -652,7 +652,7 @@ public:
   /// @return an instance of TENSOR<T> read from the archive
   template <typename T, template <typename> class TENSOR>
   TENSOR<T> read(const std::string &filename) {
-    read<TENSOR<T>>(filename);
+    return read<TENSOR<T>>(filename);
   }
 
 private:
-- 
2.43.0


From 6c4cacbdb80eda4226e34fdba0b06f5a852030cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 03/29] fix: reject unknown dtype strings

from_dtype() inserted an INT8 entry for every unknown dtype, so unsupported
files were read as bytes, and modified a table shared by all threads.
---
 src/dtype.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 12cc250..18e19fd 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -17,7 +17,8 @@ std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
     "|i1", "|u1", "<i2", "<u2", "<i4",  "<u4", "<i8",
     "<u8", "<f4", "<f8", "<c8", "<c16", "|b1"};
 
-std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> DTYPE_MAP = {
+const std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>>
+    DTYPE_MAP = {
     {"|u1", {npy::data_type_t::UINT8, npy::endian_t::NATIVE}},
     {"|i1", {npy::data_type_t::INT8, npy::endian_t::NATIVE}},
     {"<u2", {npy::data_type_t::UINT16, npy::endian_t::LITTLE}},
@@ -61,7 +62,12 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  return DTYPE_MAP[dtype];
+  auto it = DTYPE_MAP.find(dtype);
+  if (it == DTYPE_MAP.end()) {
+    throw std::runtime_error("Unsupported dtype: " + dtype);
+  }
+
+  return it->second;
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From bc32f975474be22988f1c6ed84b37963778b29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 04/29] fix: do not share the header parsing buffer between
 threads

---
 src/npy.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index db19808..a425029 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -7,9 +7,6 @@
 #include "npy/npy.h"
 
 namespace {
-const int BUFFER_SIZE = 64 * 1024;
-char BUFFER[BUFFER_SIZE];
-
 void read(std::istream &input, char expected) {
   char actual;
   input.get(actual);
@@ -17,8 +14,8 @@ void read(std::istream &input, char expected) {
 }
 
 void read(std::istream &input, const std::string &expected) {
-  input.read(BUFFER, expected.length());
-  std::string actual(BUFFER, BUFFER + expected.length());
+  std::string actual(expected.length(), '\0');
+  input.read(&actual[0], actual.length());
   assert(actual == expected);
 }
 
@@ -30,15 +27,14 @@ void skip_whitespace(std::istream &input) {
 }
 
 std::string read_to(std::istream &input, char delim) {
-  if (input.peek() == delim) {
-    return "";
+  std::string token;
+  for (int next = input.peek(); next != std::istream::traits_type::eof() &&
+                                next != static_cast<unsigned char>(delim);
+       next = input.peek()) {
+    token.push_back(static_cast<char>(input.get()));
   }
 
-  input.get(BUFFER, BUFFER_SIZE, delim);
-  auto length = input.gcount();
-  assert(length < BUFFER_SIZE);
-
-  return std::string(BUFFER, BUFFER + length);
+  return token;
 }
 
 std::string read_string(std::istream &input) {
-- 
2.43.0


From 49ca7f0594b0afc9d7bb38848516966ebf2dfada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 05/29] fix: reject truncated NPY headers, bad magic strings
 and unknown versions

These were checked by assertions that the shipped build compiles out, or not
at all.
---
 include/npy/npy.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 3e4dd33..90f03d8 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -302,24 +302,34 @@ template <typename CHAR>
 header_info read_npy_header(std::basic_istream<CHAR> &input) {
   std::uint8_t header[STATIC_HEADER_LENGTH];
   input.read(reinterpret_cast<CHAR *>(header), STATIC_HEADER_LENGTH);
-  assert(header[0] == 0x93);
-  assert(header[1] == 'N');
-  assert(header[2] == 'U');
-  assert(header[3] == 'M');
-  assert(header[4] == 'P');
-  assert(header[5] == 'Y');
+  if (input.fail() || header[0] != 0x93 || header[1] != 'N' ||
+      header[2] != 'U' || header[3] != 'M' || header[4] != 'P' ||
+      header[5] != 'Y') {
+    throw std::runtime_error("Not a valid NPY header");
+  }
+
   size_t dict_length = 0;
   if (header[6] == 0x01 && header[7] == 0x00) {
     dict_length = header[8] | (header[9] << 8);
   } else if (header[6] == 0x02 && header[7] == 0x00) {
     std::uint8_t extra[2];
     input.read(reinterpret_cast<CHAR *>(extra), 2);
-    dict_length =
-        header[8] | (header[9] << 8) | (extra[0] << 16) | (extra[1] << 24);
+    if (input.fail()) {
+      throw std::runtime_error("Not a valid NPY header");
+    }
+
+    dict_length = header[8] | (header[9] << 8) | (extra[0] << 16) |
+                  (static_cast<size_t>(extra[1]) << 24);
+  } else {
+    throw std::runtime_error("Unsupported NPY version");
   }
 
   std::vector<CHAR> buffer(dict_length);
   input.read(buffer.data(), dict_length);
+  if (input.fail()) {
+    throw std::runtime_error("Not a valid NPY header");
+  }
+
   std::string dictionary(buffer.begin(), buffer.end());
   return header_info(dictionary);
 }
-- 
2.43.0


From 99baa18b0c523d13928f725bead72752746222ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 06/29] fix: reject malformed NPY header dictionaries

The syntax was checked by assertions that the shipped build compiles out, so
malformed dictionaries, shapes such as (10L, 20L) and missing keys produced
arbitrary header values.
---
 src/npy.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/npy.cpp b/src/npy.cpp
index a425029..b6696ae 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -8,15 +8,18 @@
 
 namespace {
 void read(std::istream &input, char expected) {
-  char actual;
-  input.get(actual);
-  assert(actual == expected);
+  char actual = 0;
+  if (!input.get(actual) || actual != expected) {
+    throw std::runtime_error("Invalid NPY header dictionary");
+  }
 }
 
 void read(std::istream &input, const std::string &expected) {
   std::string actual(expected.length(), '\0');
   input.read(&actual[0], actual.length());
-  assert(actual == expected);
+  if (actual != expected) {
+    throw std::runtime_error("Invalid NPY header dictionary");
+  }
 }
 
 void skip_whitespace(std::istream &input) {
@@ -64,9 +67,15 @@ std::vector<size_t> read_shape(std::istream &input) {
   std::vector<size_t> shape;
   size_t size;
 
-  while (tuple >> size) {
+  skip_whitespace(tuple);
+  while (tuple.peek() != std::istream::traits_type::eof()) {
+    if (!std::isdigit(tuple.peek()) || !(tuple >> size)) {
+      throw std::runtime_error("Invalid shape in NPY header");
+    }
+
     shape.push_back(size);
-    if (tuple.peek() == ',') {
+    skip_whitespace(tuple);
+    if (tuple.peek() != std::istream::traits_type::eof()) {
       read(tuple, ',');
       skip_whitespace(tuple);
     }
@@ -79,6 +88,7 @@ std::vector<size_t> read_shape(std::istream &input) {
 namespace npy {
 header_info::header_info(const std::string &dictionary) {
   std::istringstream input(dictionary);
+  bool has_descr = false, has_order = false, has_shape = false;
   read(input, '{');
   while (input.peek() != '}') {
     skip_whitespace(input);
@@ -88,11 +98,19 @@ header_info::header_info(const std::string &dictionary) {
     skip_whitespace(input);
     if (key == "descr") {
       std::string dtype_code = read_string(input);
-      if (dtype_code[1] == 'U') {
+      has_descr = true;
+      if (dtype_code.size() > 1 && dtype_code[1] == 'U') {
+        if ((dtype_code[0] != '<' && dtype_code[0] != '>') ||
+            dtype_code.size() == 2 ||
+            dtype_code.find_first_not_of("0123456789", 2) !=
+                std::string::npos) {
+          throw std::runtime_error("Unsupported dtype: " + dtype_code);
+        }
+
         this->dtype = npy::data_type_t::UNICODE_STRING;
         endianness =
             dtype_code[0] == '>' ? npy::endian_t::BIG : npy::endian_t::LITTLE;
-        max_element_length = std::stoi(dtype_code.substr(2));
+        max_element_length = std::stoull(dtype_code.substr(2));
       } else {
         std::tie(this->dtype, endianness) = from_dtype(dtype_code);
         max_element_length = 0;
@@ -100,8 +118,10 @@ header_info::header_info(const std::string &dictionary) {
 
     } else if (key == "fortran_order") {
       fortran_order = read_bool(input);
+      has_order = true;
     } else if (key == "shape") {
       shape = read_shape(input);
+      has_shape = true;
     } else {
       throw std::runtime_error("Unsupported key: " + key);
     }
@@ -111,6 +131,9 @@ header_info::header_info(const std::string &dictionary) {
   }
 
   read(input, '}');
+  if (!has_descr || !has_order || !has_shape) {
+    throw std::runtime_error("Missing key in NPY header dictionary");
+  }
 }
 
 header_info::header_info(data_type_t dtype, npy::endian_t endianness,
-- 
2.43.0


From 1c374128e73a704f9898a8ae3fe6774c8f8a8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 07/29] fix: initialise max_element_length in header_info

---
 src/npy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/npy.cpp b/src/npy.cpp
index b6696ae..ddcc80a 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -142,6 +142,7 @@ header_info::header_info(data_type_t dtype, npy::endian_t endianness,
   this->endianness = endianness;
   this->fortran_order = fortran_order;
   this->shape = shape;
+  this->max_element_length = 0;
 }
 
 header_info peek(const std::string &path) {
-- 
2.43.0


From 588ccb166da6d9d926e6071601021ebb4ce8d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 08/29] fix: throw from load when the values cannot be read

A short file or a read error produced a tensor with arbitrary values.
---
 include/npy/npy.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 90f03d8..5f17a09 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -347,7 +347,12 @@ void read_values(std::basic_istream<CHAR> &input, T *data_ptr,
 
 template <typename T, typename CHAR> T load(std::basic_istream<CHAR> &input) {
   header_info info = read_npy_header(input);
-  return T::load(input, info);
+  T result = T::load(input, info);
+  if (input.fail()) {
+    throw std::runtime_error("Unable to read the tensor from the stream");
+  }
+
+  return result;
 }
 
 /// @brief Loads a tensor in NPY format from the specified location on the disk.
@@ -764,6 +769,9 @@ public:
     }
 
     read_values(input, result.m_values.data(), result.m_values.size(), info);
+    if (input.fail()) {
+      throw std::runtime_error("Unable to read the tensor from the stream");
+    }
 
     return result;
   }
-- 
2.43.0


From 186af7be656417deb5c6a1e2ae4b07f39cbbea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 09/29] fix: keep NUL characters inside strings when reading

---
 src/dtype.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 18e19fd..aa57658 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -576,12 +576,12 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[1] = GETC(input);
         bytes[0] = GETC(input);
       }
-      if (value == 0) {
-        continue;
-      }
 
       ptr->push_back(static_cast<wchar_t>(value));
     }
+
+    // only the trailing NUL characters are padding
+    ptr->erase(ptr->find_last_not_of(L'\0') + 1);
   }
 }
 
-- 
2.43.0


From 6902aec33ec1c5e09d3dc5325b9c929b51b9ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 10/29] fix: stop reading strings when the stream has failed

A header announcing long strings made the reader loop, and grow the string,
long after the end of a short stream.
---
 src/dtype.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index aa57658..58f5a06 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -577,6 +577,10 @@ void read_values<>(std::basic_istream<char> &input, std::wstring *data_ptr,
         bytes[0] = GETC(input);
       }
 
+      if (input.fail()) {
+        return;
+      }
+
       ptr->push_back(static_cast<wchar_t>(value));
     }
 
-- 
2.43.0


From 4fae0f0d7613347766297fc0cbb4ee82ae4c84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 11/29] fix: swap the bytes of complex numbers per component

Reversing the whole number also exchanged its real and imaginary parts.
---
 src/dtype.cpp | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 58f5a06..544b448 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -422,14 +422,14 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[7]);
-      output.put(start[6]);
-      output.put(start[5]);
-      output.put(start[4]);
       output.put(start[3]);
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[7]);
+      output.put(start[6]);
+      output.put(start[5]);
+      output.put(start[4]);
     }
   }
 }
@@ -445,14 +445,14 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 8) {
-      ptr[7] = GETC(input);
-      ptr[6] = GETC(input);
-      ptr[5] = GETC(input);
-      ptr[4] = GETC(input);
       ptr[3] = GETC(input);
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[7] = GETC(input);
+      ptr[6] = GETC(input);
+      ptr[5] = GETC(input);
+      ptr[4] = GETC(input);
     }
   }
 }
@@ -466,14 +466,6 @@ void write_values<>(std::basic_ostream<char> &output,
   } else {
     for (auto curr = data_ptr; curr < data_ptr + num_elements; ++curr) {
       const char *start = reinterpret_cast<const char *>(curr);
-      output.put(start[15]);
-      output.put(start[14]);
-      output.put(start[13]);
-      output.put(start[12]);
-      output.put(start[11]);
-      output.put(start[10]);
-      output.put(start[9]);
-      output.put(start[8]);
       output.put(start[7]);
       output.put(start[6]);
       output.put(start[5]);
@@ -482,6 +474,14 @@ void write_values<>(std::basic_ostream<char> &output,
       output.put(start[2]);
       output.put(start[1]);
       output.put(start[0]);
+      output.put(start[15]);
+      output.put(start[14]);
+      output.put(start[13]);
+      output.put(start[12]);
+      output.put(start[11]);
+      output.put(start[10]);
+      output.put(start[9]);
+      output.put(start[8]);
     }
   }
 }
@@ -497,14 +497,6 @@ void read_values<>(std::basic_istream<char> &input,
   } else {
     char *ptr = start;
     for (size_t i = 0; i < num_elements; ++i, ptr += 16) {
-      ptr[15] = GETC(input);
-      ptr[14] = GETC(input);
-      ptr[13] = GETC(input);
-      ptr[12] = GETC(input);
-      ptr[11] = GETC(input);
-      ptr[10] = GETC(input);
-      ptr[9] = GETC(input);
-      ptr[8] = GETC(input);
       ptr[7] = GETC(input);
       ptr[6] = GETC(input);
       ptr[5] = GETC(input);
@@ -513,6 +505,14 @@ void read_values<>(std::basic_istream<char> &input,
       ptr[2] = GETC(input);
       ptr[1] = GETC(input);
       ptr[0] = GETC(input);
+      ptr[15] = GETC(input);
+      ptr[14] = GETC(input);
+      ptr[13] = GETC(input);
+      ptr[12] = GETC(input);
+      ptr[11] = GETC(input);
+      ptr[10] = GETC(input);
+      ptr[9] = GETC(input);
+      ptr[8] = GETC(input);
     }
   }
 }
-- 
2.43.0


From 7587674be0d5004ced677dd5feca3c70bb049726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 12/29] fix: read all pending output when inflating

---
 src/zip.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 5c7a52c..20d9a2b 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -145,7 +145,10 @@ std::string npy_inflate(std::string &&bytes) {
         (void)inflateEnd(&strm);
         throw std::runtime_error("Error writing to output stream");
       }
-    } while (strm.avail_out == 0);
+      /* miniz can hold back output after it has consumed all of the input and
+         before the output buffer is full, so a partly filled buffer does not
+         mean that there is nothing more to come */
+    } while (ret != Z_STREAM_END && have > 0);
 
     /* done when inflate() says it's done */
   } while (ret != Z_STREAM_END);
-- 
2.43.0


From 002dd74fc4dcad25b3a97f14248c89184df33495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 13/29] fix: throw from save when the file cannot be written

---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 5f17a09..eea120e 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -281,6 +281,10 @@ void save(const std::string &path, T &tensor,
   }
 
   save<T>(output, tensor, endianness);
+  output.close();
+  if (output.fail()) {
+    throw std::runtime_error("Unable to write the tensor to the path");
+  }
 };
 
 /// @brief Saves a tensor to the provided location on disk.
-- 
2.43.0


From 1c70c71cb31a09d6cf9f3e516438cc145fb66523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 14/29] fix: throw from the NPZ writers when the archive cannot
 be written

---
 include/npy/npy.h | 10 ++++++++++
 src/npz.cpp       | 35 +++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index eea120e..e5ef673 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -199,6 +199,10 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
   }
 
   buff << "), }";
+  if (buff.fail()) {
+    throw std::runtime_error("Unable to build the NPY header");
+  }
+
   std::string dictionary = buff.str();
   auto dict_length = dictionary.size() + 1;
   std::string end = "\n";
@@ -461,6 +465,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (output.fail()) {
+      throw std::runtime_error("Unable to serialize the tensor");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
@@ -535,6 +542,9 @@ public:
 
     std::ostringstream output;
     save<T>(output, tensor, m_endianness);
+    if (output.fail()) {
+      throw std::runtime_error("Unable to serialize the tensor");
+    }
 
     std::string suffix = ".npy";
     std::string name = filename;
diff --git a/src/npz.cpp b/src/npz.cpp
index 51a25e0..ecd77fa 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -332,16 +332,33 @@ void read_entries(std::istream &input,
   std::sort(keys.begin(), keys.end());
 }
 
+void assert_written(const std::ostream &output) {
+  if (output.fail()) {
+    throw std::runtime_error("Unable to write to the NPZ archive");
+  }
+}
+
+std::uint64_t tell(std::ostream &output) {
+  std::streamoff offset = output.tellp();
+  if (offset < 0) {
+    output.setstate(std::ios::badbit);
+    throw std::runtime_error("Unable to write to the NPZ archive");
+  }
+
+  return static_cast<std::uint64_t>(offset);
+}
+
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint32_t>(output.tellp());
+  dir.offset = static_cast<std::uint32_t>(tell(output));
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint32_t>(output.tellp()) - dir.offset;
+  dir.size = static_cast<std::uint32_t>(tell(output)) - dir.offset;
   dir.num_entries = static_cast<std::uint16_t>(entries.size());
   write_end_of_central_directory(output, dir);
+  assert_written(output);
 }
 
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
@@ -366,11 +383,12 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(output.tellp())};
+                      static_cast<std::uint32_t>(tell(output))};
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
   output.write(compressed_bytes.data(), compressed_size);
+  assert_written(output);
   entries.push_back(std::move(entry));
 }
 
@@ -440,8 +458,10 @@ npzstringwriter::npzstringwriter(compression_method_t compression,
       m_endianness(endianness) {}
 
 npzstringwriter::~npzstringwriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (...) {
+    // destructors must not throw, call close to see the error
   }
 }
 
@@ -482,8 +502,10 @@ npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
       m_compression_method(compression), m_endianness(endianness) {}
 
 npzfilewriter::~npzfilewriter() {
-  if (!m_closed) {
+  try {
     close();
+  } catch (...) {
+    // destructors must not throw, call close to see the error
   }
 }
 
@@ -502,8 +524,9 @@ void npzfilewriter::write_file(const std::string &filename,
 void npzfilewriter::close() {
   if (!m_closed) {
     ::close(m_output, m_entries);
-    m_closed = true;
     m_output.close();
+    assert_written(m_output);
+    m_closed = true;
   }
 }
 
-- 
2.43.0


From 132c648224f1f92955c6fc2dbcc8fc2e73f30a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 15/29] fix: detect failed reads of NPZ archives and recover
 from them

---
 src/npz.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index ecd77fa..8bd8e4b 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -84,9 +84,9 @@ std::uint64_t read64(std::istream &stream) {
 void assert_sig(std::istream &stream,
                 const std::array<std::uint8_t, 4> &expected,
                 const char *entity) {
-  std::array<std::uint8_t, 4> actual;
+  std::array<std::uint8_t, 4> actual = {};
   stream.read(reinterpret_cast<char *>(actual.data()), actual.size());
-  if (actual != expected) {
+  if (stream.fail() || actual != expected) {
     printf("Invalid signature when reading %s:\n", entity);
     printf("actual: [%d, %d, %d, %d]\n", actual[0], actual[1], actual[2],
            actual[3]);
@@ -96,6 +96,12 @@ void assert_sig(std::istream &stream,
   }
 }
 
+void assert_read(const std::istream &stream) {
+  if (stream.fail()) {
+    throw std::runtime_error("Unable to read from the NPZ archive");
+  }
+}
+
 std::uint16_t determine_extra_length(const npy::file_entry &header,
                                      bool include_offset) {
   std::uint16_t length = 0;
@@ -226,6 +232,7 @@ npy::file_entry read_local_header(std::istream &stream) {
     read_zip64_extra(stream, entry, false);
   }
 
+  assert_read(stream);
   return entry;
 }
 
@@ -278,6 +285,7 @@ npy::file_entry read_central_directory_header(std::istream &stream) {
     read_zip64_extra(stream, entry, true);
   }
 
+  assert_read(stream);
   return entry;
 }
 
@@ -312,6 +320,7 @@ CentralDirectory read_end_of_central_directory(std::istream &stream) {
   read16(stream); // num_entries_on_disk
   result.size = read32(stream);
   result.offset = read32(stream);
+  assert_read(stream);
   return result;
 }
 
@@ -409,6 +418,7 @@ std::string read_file(std::istream &input,
   }
 
   const file_entry &entry = entries.at(filename);
+  input.clear(); // an earlier failure must not affect this read
   input.seekg(entry.offset, std::ios::beg);
 
   file_entry local = read_local_header(input);
@@ -420,6 +430,7 @@ std::string read_file(std::istream &input,
   uncompressed_bytes.resize(entry.compressed_size);
   input.read(reinterpret_cast<char *>(uncompressed_bytes.data()),
              uncompressed_bytes.size());
+  assert_read(input);
   compression_method_t cmethod =
       static_cast<compression_method_t>(entry.compression_method);
   if (cmethod == compression_method_t::DEFLATED) {
-- 
2.43.0


From 29124571d6551ece64af22e05f1fa83350a47efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 16/29] fix: refuse archives whose directory is not fully
 listed

---
 src/npz.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/npz.cpp b/src/npz.cpp
index 8bd8e4b..9a22734 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -338,6 +338,12 @@ void read_entries(std::istream &input,
     keys.push_back(entry.filename);
   }
 
+  // a ZIP64 directory holds more than the end record can say
+  std::uint64_t end = static_cast<std::uint64_t>(dir.offset) + dir.size;
+  if (static_cast<std::uint64_t>(input.tellg()) != end) {
+    throw std::runtime_error("Central directory and end record disagree");
+  }
+
   std::sort(keys.begin(), keys.end());
 }
 
-- 
2.43.0


From 327d0a5651b42c1e4b1b6284e3e26829e048908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 17/29] fix: leave the tensor unchanged when copy assignment
 fails

---
 include/npy/npy.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index e5ef673..d11d92c 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -940,12 +940,8 @@ public:
 
   /// @brief Copy assignment operator.
   tensor<T> &operator=(const tensor<T> &other) {
-    m_shape = other.m_shape;
-    m_ravel_strides = other.m_ravel_strides;
-    m_fortran_order = other.m_fortran_order;
-    m_dtype = other.m_dtype;
-    m_values = other.m_values;
-    return *this;
+    // copy first, so that a failed allocation leaves this tensor unchanged
+    return *this = tensor<T>(other);
   }
 
   /// @brief Move assignment operator.
-- 
2.43.0


From 1359fbfad1b74e7d309add14479b3b8aa833f9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 18/29] fix: free the deflate and inflate state when an
 allocation fails

---
 src/zip.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/zip.cpp b/src/zip.cpp
index 20d9a2b..d5efeeb 100644
--- a/src/zip.cpp
+++ b/src/zip.cpp
@@ -31,8 +31,11 @@ std::string npy_deflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
 
-  /* allocate deflate state */
+  /* allocate deflate state, last so that nothing can throw before it is freed */
   strm.zalloc = Z_NULL;
   strm.zfree = Z_NULL;
   strm.opaque = Z_NULL;
@@ -42,10 +45,6 @@ std::string npy_deflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize deflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* compress until end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
@@ -94,7 +93,11 @@ std::string npy_inflate(std::string &&bytes) {
   z_stream strm;
   std::vector<unsigned char> in(CHUNK);
   std::vector<unsigned char> out(CHUNK);
-  /* allocate inflate state */
+  std::string str(bytes.begin(), bytes.end());
+  std::istringstream input(std::move(str));
+  std::ostringstream output;
+
+  /* allocate inflate state, last so that nothing can throw before it is freed */
   strm.zalloc = Z_NULL;
   strm.zfree = Z_NULL;
   strm.opaque = Z_NULL;
@@ -105,10 +108,6 @@ std::string npy_inflate(std::string &&bytes) {
     throw std::runtime_error("Unable to initialize inflate algorithm");
   }
 
-  std::string str(bytes.begin(), bytes.end());
-  std::istringstream input(std::move(str));
-  std::ostringstream output;
-
   /* decompress until deflate stream ends or end of file */
   do {
     input.read(reinterpret_cast<char *>(in.data()), CHUNK);
-- 
2.43.0


From e4bc02641428eeb7e3aa984a30cee2c99b493022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 19/29] fix: throw when the size of a tensor shape overflows

---
 include/npy/npy.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index d11d92c..177420d 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -23,6 +23,7 @@
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -1028,8 +1029,16 @@ private:
 
   /// @brief Gets the size of a tensor given its shape
   static size_t get_size(const std::vector<size_t> &shape) {
+    if (std::find(shape.begin(), shape.end(), 0) != shape.end()) {
+      return 0;
+    }
+
     size_t size = 1;
     for (auto &dim : shape) {
+      if (size > std::numeric_limits<size_t>::max() / dim) {
+        throw std::length_error("tensor shape is too large");
+      }
+
       size *= dim;
     }
 
-- 
2.43.0


From 8ccc1d5100e5a64fac3dd113593afd55934ac558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 20/29] fix: leave the tensor unchanged when copying values
 fails

---
 include/npy/npy.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 177420d..a48adb3 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -28,6 +28,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 #include <vector>
 
 #define NPY_VERSION_MAJOR 2
@@ -883,7 +884,7 @@ public:
       throw std::invalid_argument("nitems");
     }
 
-    std::copy(source, source + nitems, m_values.begin());
+    copy_values(source, source + nitems);
   }
 
   /// @brief Copy values from the provided vector.
@@ -893,7 +894,7 @@ public:
       throw std::invalid_argument("source.size");
     }
 
-    std::copy(source.begin(), source.end(), m_values.begin());
+    copy_values(source.begin(), source.end());
   }
 
   /// @brief Move values from the provided vector.
@@ -1027,6 +1028,17 @@ private:
   /// @brief Returns the data type for this tensor.
   static data_type_t get_dtype();
 
+  /// @brief Overwrites the values. If copying one can throw (e.g. a string),
+  /// they are all copied first so that a failure leaves this tensor unchanged.
+  template <typename IT> void copy_values(IT first, IT last) {
+    if (std::is_nothrow_copy_assignable<T>::value) {
+      std::copy(first, last, m_values.begin());
+    } else {
+      std::vector<T> values(first, last);
+      std::move(values.begin(), values.end(), m_values.begin());
+    }
+  }
+
   /// @brief Gets the size of a tensor given its shape
   static size_t get_size(const std::vector<size_t> &shape) {
     if (std::find(shape.begin(), shape.end(), 0) != shape.end()) {
-- 
2.43.0


From 7aa6cd7f513e12f6271163bf8b485e91e8b318e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 21/29] fix: format and parse NPY headers in the classic locale

---
 include/npy/npy.h | 2 ++
 src/npy.cpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index a48adb3..97d735c 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -24,6 +24,7 @@
 #include <filesystem>
 #include <fstream>
 #include <limits>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <stdexcept>
@@ -186,6 +187,7 @@ void write_npy_header(std::basic_ostream<CHAR> &output,
                       const std::string &dtype, bool fortran_order,
                       const std::vector<size_t> &shape) {
   std::ostringstream buff;
+  buff.imbue(std::locale::classic());
   buff << "{'descr': '" << dtype;
   buff << "', 'fortran_order': " << (fortran_order ? "True" : "False");
   buff << ", 'shape': (";
diff --git a/src/npy.cpp b/src/npy.cpp
index ddcc80a..c1692b6 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -1,6 +1,7 @@
 #include <cctype>
 #include <fstream>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <tuple>
 
@@ -62,6 +63,7 @@ bool read_bool(std::istream &input) {
 std::vector<size_t> read_shape(std::istream &input) {
   read(input, '(');
   std::istringstream tuple(read_to(input, ')'));
+  tuple.imbue(std::locale::classic());
   read(input, ')');
 
   std::vector<size_t> shape;
-- 
2.43.0


From 0c20958426174011e3a33b9e9ba83c887b865dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 22/29] fix: reject NPZ directories that lie outside the
 archive

---
 src/npz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 9a22734..e29c224 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -328,6 +328,7 @@ void read_entries(std::istream &input,
                   std::map<std::string, file_entry> &entries,
                   std::vector<std::string> &keys) {
   input.seekg(-CD_END_SIZE, std::ios::end);
+  std::uint64_t limit = static_cast<std::uint64_t>(input.tellg());
   CentralDirectory dir = read_end_of_central_directory(input);
 
   input.seekg(dir.offset, std::ios::beg);
@@ -340,7 +341,7 @@ void read_entries(std::istream &input,
 
   // a ZIP64 directory holds more than the end record can say
   std::uint64_t end = static_cast<std::uint64_t>(dir.offset) + dir.size;
-  if (static_cast<std::uint64_t>(input.tellg()) != end) {
+  if (end > limit || static_cast<std::uint64_t>(input.tellg()) != end) {
     throw std::runtime_error("Central directory and end record disagree");
   }
 
-- 
2.43.0


From 8e4331940218dd19142f7e3a6ad3c5e95060f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 23/29] fix: count the tag and size in the length of the ZIP64
 extra field

---
 src/npz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index e29c224..43c21b5 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -117,7 +117,8 @@ std::uint16_t determine_extra_length(const npy::file_entry &header,
     length += 8;
   }
 
-  return length;
+  // the tag and size which precede the values
+  return length > 0 ? length + 4 : 0;
 }
 
 void write_zip64_extra(std::ostream &stream, const npy::file_entry &header,
-- 
2.43.0


From 45de04a038719f0e0b229a687d15acfc81889d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 24/29] fix: refuse to exceed the limits of the NPZ archive
 format

---
 src/npz.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/npz.cpp b/src/npz.cpp
index 43c21b5..3415c6e 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -25,6 +25,9 @@ const std::uint16_t ZIP64_VERSION = 45; // 4.5 File uses ZIP64 format extensions
 const std::uint16_t ZIP64_TAG = 1;
 const std::uint64_t ZIP64_LIMIT = 0x8FFFFFFF;
 const std::uint32_t ZIP64_PLACEHOLDER = 0xFFFFFFFF;
+const std::uint64_t LOCAL_HEADER_SIZE = 30;
+const std::uint64_t MAX_SIZE = ZIP64_PLACEHOLDER - 1;
+const std::uint64_t MAX_COUNT = 0xFFFF;
 
 void write(std::ostream &stream, std::uint16_t value) {
   stream.put(value & 0x00FF);
@@ -365,14 +368,25 @@ std::uint64_t tell(std::ostream &output) {
   return static_cast<std::uint64_t>(offset);
 }
 
+// the directory is written without ZIP64 records, which limits its fields
+void assert_fits(std::uint64_t value, std::uint64_t limit) {
+  if (value > limit) {
+    throw std::length_error("Limit of the NPZ archive format exceeded");
+  }
+}
+
 void close(std::ostream &output, const std::vector<file_entry> &entries) {
   CentralDirectory dir;
-  dir.offset = static_cast<std::uint32_t>(tell(output));
+  std::uint64_t offset = tell(output);
+  assert_fits(offset, MAX_SIZE);
+  dir.offset = static_cast<std::uint32_t>(offset);
   for (auto &header : entries) {
     write_central_directory_header(output, header);
   }
 
-  dir.size = static_cast<std::uint32_t>(tell(output)) - dir.offset;
+  std::uint64_t size = tell(output) - offset;
+  assert_fits(size, MAX_SIZE);
+  dir.size = static_cast<std::uint32_t>(size);
   dir.num_entries = static_cast<std::uint16_t>(entries.size());
   write_end_of_central_directory(output, dir);
   assert_written(output);
@@ -381,8 +395,11 @@ void close(std::ostream &output, const std::vector<file_entry> &entries) {
 void write_file(std::ostream &output, std::vector<file_entry> &entries,
                 const std::string &filename,
                 compression_method_t compression_method, std::string &&bytes) {
+  assert_fits(filename.length(), MAX_COUNT);
+  assert_fits(entries.size() + 1, MAX_COUNT);
+  assert_fits(bytes.size(), MAX_SIZE);
   std::uint32_t uncompressed_size = static_cast<std::uint32_t>(bytes.size());
-  std::uint32_t compressed_size = 0;
+  std::uint64_t compressed_size = 0;
   std::string compressed_bytes;
   std::uint32_t checksum = npy_crc32(bytes);
   if (compression_method == compression_method_t::STORED) {
@@ -390,7 +407,7 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
     compressed_size = uncompressed_size;
   } else if (compression_method == compression_method_t::DEFLATED) {
     compressed_bytes = npy_deflate(std::move(bytes));
-    compressed_size = static_cast<std::uint32_t>(compressed_bytes.size());
+    compressed_size = compressed_bytes.size();
   } else {
     throw std::invalid_argument("Unsupported compression method");
   }
@@ -400,7 +417,12 @@ void write_file(std::ostream &output, std::vector<file_entry> &entries,
                       compressed_size,
                       uncompressed_size,
                       static_cast<std::uint16_t>(compression_method),
-                      static_cast<std::uint32_t>(tell(output))};
+                      tell(output)};
+
+  // the directory must be able to follow this entry
+  assert_fits(entry.offset + LOCAL_HEADER_SIZE + filename.length() +
+                  determine_extra_length(entry, false) + compressed_size,
+              MAX_SIZE);
 
   bool zip64 = uncompressed_size > ZIP64_LIMIT || compressed_size > ZIP64_LIMIT;
   write_local_header(output, entry, zip64);
-- 
2.43.0


From fdb9976483e6a44290d49976eaaa0897b4372279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 25/29] fix: element type names are known during static
 initialization

---
 src/dtype.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/dtype.cpp b/src/dtype.cpp
index 544b448..37e306f 100644
--- a/src/dtype.cpp
+++ b/src/dtype.cpp
@@ -1,24 +1,18 @@
 #include <array>
 #include <complex>
-#include <map>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
 #include "npy/npy.h"
 
 #define GETC(x) static_cast<char>((x).get())
 
 namespace {
-std::array<std::string, 13> BIG_ENDIAN_DTYPES = {
-    "|i1", "|u1", ">i2", ">u2", ">i4",  ">u4", ">i8",
-    ">u8", ">f4", ">f8", ">c8", ">c16", "|b1"};
-
-std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
-    "|i1", "|u1", "<i2", "<u2", "<i4",  "<u4", "<i8",
-    "<u8", "<f4", "<f8", "<c8", "<c16", "|b1"};
-
-const std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>>
-    DTYPE_MAP = {
+// the tables must not depend on dynamic initialization, as tensors can be saved
+// and loaded while other static objects are being initialized
+constexpr std::pair<const char *, std::pair<npy::data_type_t, npy::endian_t>>
+    DTYPES[] = {
     {"|u1", {npy::data_type_t::UINT8, npy::endian_t::NATIVE}},
     {"|i1", {npy::data_type_t::INT8, npy::endian_t::NATIVE}},
     {"<u2", {npy::data_type_t::UINT16, npy::endian_t::LITTLE}},
@@ -54,6 +48,14 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
     endianness = native_endian();
   }
 
+  static const std::array<std::string, 13> BIG_ENDIAN_DTYPES = {
+      "|i1", "|u1", ">i2", ">u2", ">i4",  ">u4", ">i8",
+      ">u8", ">f4", ">f8", ">c8", ">c16", "|b1"};
+
+  static const std::array<std::string, 13> LITTLE_ENDIAN_DTYPES = {
+      "|i1", "|u1", "<i2", "<u2", "<i4",  "<u4", "<i8",
+      "<u8", "<f4", "<f8", "<c8", "<c16", "|b1"};
+
   if (endianness == npy::endian_t::BIG) {
     return BIG_ENDIAN_DTYPES[static_cast<size_t>(dtype)];
   }
@@ -62,12 +64,13 @@ const std::string &to_dtype(data_type_t dtype, endian_t endianness) {
 }
 
 const std::pair<data_type_t, endian_t> &from_dtype(const std::string &dtype) {
-  auto it = DTYPE_MAP.find(dtype);
-  if (it == DTYPE_MAP.end()) {
-    throw std::runtime_error("Unsupported dtype: " + dtype);
+  for (const auto &entry : DTYPES) {
+    if (dtype == entry.first) {
+      return entry.second;
+    }
   }
 
-  return it->second;
+  throw std::runtime_error("Unsupported dtype: " + dtype);
 }
 
 std::ostream &operator<<(std::ostream &os, const data_type_t &value) {
-- 
2.43.0


From a7d602f4a1060a252a49719012619d0af8d755b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 26/29] fix: a tensor index of the wrong length is rejected in
 every spelling

operator()(std::vector<std::size_t>) and ravel(std::vector<std::size_t>) did
not check the number of indices, and read past the end of a short one.
---
 include/npy/npy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 97d735c..46b0147 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -1013,6 +1013,10 @@ public:
   /// @param abs_multi_index the multi-index value
   /// @return the single value in the buffer corresponding to the multi-index
   size_t ravel(const std::vector<std::size_t> &abs_multi_index) const {
+    if (abs_multi_index.size() != m_shape.size()) {
+      throw std::invalid_argument("multi_index");
+    }
+
     if (m_fortran_order) {
       return ravel(abs_multi_index.rbegin(), m_shape.rbegin());
     }
-- 
2.43.0


From e78332a27f0cb8748b92925c2069f475071dc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:58 +0000
Subject: [PATCH 27/29] fix: bits that are no code of an incomplete Huffman
 table end the stream

A dynamic block whose literal table has no codes (or one) leaves lookup
entries at zero, and decoding such an entry consumed no input: a handful
of bytes in an archive expanded to output without end, until memory ran
out, where any inflater reports corrupt data.
---
 src/miniz/miniz.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/miniz/miniz.cpp b/src/miniz/miniz.cpp
index 91c1abe..91aef7a 100644
--- a/src/miniz/miniz.cpp
+++ b/src/miniz/miniz.cpp
@@ -484,7 +484,8 @@ const char *mz_error(int err)
 // beyond the final byte of the deflate stream. (In other words, when this macro wants to read another byte from the input, it REALLY needs another byte in order to fully
 // decode the next Huffman code.) Handling this properly is particularly important on raw deflate (non-zlib) streams, which aren't followed by a byte aligned adler-32.
 // The slow path is only executed at the very end of the input buffer.
-#define TINFL_HUFF_DECODE(state_index, sym, pHuff) do { \
+// An incomplete table (one with no codes, or with just one) leaves lookup entries at zero: those bits are no code at all, and decoding them would consume nothing.
+#define TINFL_HUFF_DECODE(state_index, fail_index, sym, pHuff) do { \
   int temp; mz_uint code_len, c; \
   if (num_bits < 15) { \
     if ((pIn_buf_end - pIn_buf_cur) < 2) { \
@@ -497,7 +498,9 @@ const char *mz_error(int err)
     code_len = temp >> 9, temp &= 511; \
   else { \
     code_len = TINFL_FAST_LOOKUP_BITS; do { temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; } while (temp < 0); \
-  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
+  } \
+  if (!code_len) { TINFL_CR_RETURN_FOREVER(fail_index, TINFL_STATUS_FAILED); } \
+  sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -613,7 +616,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         {
           for (counter = 0; counter < (r->m_table_sizes[0] + r->m_table_sizes[1]); )
           {
-            mz_uint s; TINFL_HUFF_DECODE(16, dist, &r->m_tables[2]); if (dist < 16) { r->m_len_codes[counter++] = (mz_uint8)dist; continue; }
+            mz_uint s; TINFL_HUFF_DECODE(16, 54, dist, &r->m_tables[2]); if (dist < 16) { r->m_len_codes[counter++] = (mz_uint8)dist; continue; }
             if ((dist == 16) && (!counter))
             {
               TINFL_CR_RETURN_FOREVER(17, TINFL_STATUS_FAILED);
@@ -635,7 +638,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         {
           if (((pIn_buf_end - pIn_buf_cur) < 4) || ((pOut_buf_end - pOut_buf_cur) < 2))
           {
-            TINFL_HUFF_DECODE(23, counter, &r->m_tables[0]);
+            TINFL_HUFF_DECODE(23, 55, counter, &r->m_tables[0]);
             if (counter >= 256)
               break;
             while (pOut_buf_cur >= pOut_buf_end) { TINFL_CR_RETURN(24, TINFL_STATUS_HAS_MORE_OUTPUT); }
@@ -655,6 +658,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(57, TINFL_STATUS_FAILED); }
             counter = sym2; bit_buf >>= code_len; num_bits -= code_len;
             if (counter & 256)
               break;
@@ -668,6 +672,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(58, TINFL_STATUS_FAILED); }
             bit_buf >>= code_len; num_bits -= code_len;
 
             pOut_buf_cur[0] = (mz_uint8)counter;
@@ -686,7 +691,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
         num_extra = s_length_extra[counter - 257]; counter = s_length_base[counter - 257];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(25, extra_bits, num_extra); counter += extra_bits; }
 
-        TINFL_HUFF_DECODE(26, dist, &r->m_tables[1]);
+        TINFL_HUFF_DECODE(26, 56, dist, &r->m_tables[1]);
         num_extra = s_dist_extra[dist]; dist = s_dist_base[dist];
         if (num_extra) { mz_uint extra_bits; TINFL_GET_BITS(27, extra_bits, num_extra); dist += extra_bits; }
 
-- 
2.43.0


From d0ee33fa582b0bb61ff53beaf6c9c58dd8a77b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 28/29] fix: the global locale does not convert the bytes of
 files

Files opened by the library took the code conversion of the program's
global locale, and one that converts changed what was written and read.
---
 include/npy/npy.h |  3 +++
 src/npy.cpp       |  1 +
 src/npz.cpp       | 13 ++++++++++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index 46b0147..b45f36a 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -288,6 +288,8 @@ void save(const std::string &path, T &tensor,
     throw std::invalid_argument("path");
   }
 
+  output.imbue(std::locale::classic()); // the file holds the bytes as they are
+
   save<T>(output, tensor, endianness);
   output.close();
   if (output.fail()) {
@@ -379,6 +381,7 @@ template <typename T> T load(const std::string &path) {
     throw std::invalid_argument("path");
   }
 
+  input.imbue(std::locale::classic()); // the file holds the bytes as they are
   return load<T>(input);
 }
 
diff --git a/src/npy.cpp b/src/npy.cpp
index c1692b6..6198027 100644
--- a/src/npy.cpp
+++ b/src/npy.cpp
@@ -153,6 +153,7 @@ header_info peek(const std::string &path) {
     throw std::invalid_argument("path");
   }
 
+  input.imbue(std::locale::classic()); // the file holds the bytes as they are
   return peek(input);
 }
 
diff --git a/src/npz.cpp b/src/npz.cpp
index 3415c6e..1867547 100644
--- a/src/npz.cpp
+++ b/src/npz.cpp
@@ -529,18 +529,24 @@ npzfilewriter::npzfilewriter(const std::string &path,
                              compression_method_t compression,
                              endian_t endianness)
     : m_closed(false), m_output(path, std::ios::binary),
-      m_compression_method(compression), m_endianness(endianness) {}
+      m_compression_method(compression), m_endianness(endianness) {
+  m_output.imbue(std::locale::classic());
+}
 
 npzfilewriter::npzfilewriter(const std::filesystem::path &path,
                              compression_method_t compression,
                              endian_t endianness)
     : m_closed(false), m_output(path, std::ios::binary),
-      m_compression_method(compression), m_endianness(endianness) {}
+      m_compression_method(compression), m_endianness(endianness) {
+  m_output.imbue(std::locale::classic());
+}
 
 npzfilewriter::npzfilewriter(const char *path, compression_method_t compression,
                              endian_t endianness)
     : m_closed(false), m_output(path, std::ios::binary),
-      m_compression_method(compression), m_endianness(endianness) {}
+      m_compression_method(compression), m_endianness(endianness) {
+  m_output.imbue(std::locale::classic());
+}
 
 npzfilewriter::~npzfilewriter() {
   try {
@@ -619,6 +625,7 @@ void npzfilereader::read_entries() {
     throw std::invalid_argument("File not found");
   }
 
+  m_input.imbue(std::locale::classic());
   ::read_entries(m_input, m_entries, m_keys);
 }
 
-- 
2.43.0


From 04924c0b79037e282c78dd7fe18b00e5dd63ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 29/29] fix: a negative number or NaN converts to a boolean
 that is true

boolean(v) compared v with 0 instead of interpreting it as a bool, as its
documentation says and as its assignment operator does.
---
 include/npy/npy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/npy/npy.h b/include/npy/npy.h
index b45f36a..06764d9 100644
--- a/include/npy/npy.h
+++ b/include/npy/npy.h
@@ -110,7 +110,7 @@ struct boolean {
   /// be interpreted as a boolean.
   /// @param v The value to convert into a boolean
   /// @tparam T Must be implicitly convertable to bool
-  template <typename T> boolean(const T &v) { value = v > 0 ? 1 : 0; }
+  template <typename T> boolean(const T &v) { value = v ? 1 : 0; }
 
   /// @brief Constructor from boolean values.
   /// @param b The bool to store
-- 
2.43.0

