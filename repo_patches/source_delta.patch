From 0bb8ba3cfc585b861ce4ca6d2247ea421c112bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 01/75] fix: Mat2D copies copy their elements, assignments
 release storage and return a value

---
 src/cmat2d.hpp                 | 19 ++++++++++++-------
 var/icgem/src/compact2dmat.hpp | 23 ++++++++++++++---------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..c5f5444 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -243,11 +243,12 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data ||
+          (m_storage.num_elements() != mat.m_storage.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -255,10 +256,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 408ea00..d5e777f 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -197,14 +197,14 @@ public:
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
   const double *slice(int i) const noexcept {
-    return m_data[m_storage(slice(i))];
+    return m_data + m_storage.slice(i);
   }
 
   /// @brief Row/Column indexing (rows and columns start from 0 --not 1--)
   /// If the data is tored in a Row-Wise manner, this function will return the
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
-  double *slice(int i) noexcept { return m_data[m_storage(slice(i))]; }
+  double *slice(int i) noexcept { return m_data + m_storage.slice(i); }
 
   void fill_with(double val) noexcept {
     std::fill(m_data, m_data + m_storage.num_elements(), val);
@@ -226,7 +226,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -235,11 +235,12 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data ||
+          (m_storage.num_elements() != mat.m_storage.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -247,10 +248,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From 5dbc627e1c8dcfc9c60702f35d155851ab366243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 02/75] fix: HarmonicCoeffs resize/move leaks and high-degree
 denormalisation overflow

---
 src/gravity/harmonic_coeffs.cpp   | 14 ++++++++------
 src/harmonic_coeffs.hpp           |  4 ++--
 var/icgem/src/harmonic_coeffs.cpp | 10 +++++++---
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..345b39e 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -21,9 +21,7 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
-      m_degree = degree;
-    } else {
+    if (!m_data || degree != m_degree) {
       deallocate();
       m_data = nullptr;
       m_degree = degree;
@@ -45,6 +43,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   this->_GM = h._GM;
@@ -55,6 +56,8 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+// sqrt[(n+m)! / (n-m)!]; the root is taken factor by factor, because the ratio
+// itself overflows for degrees above 85
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -62,13 +65,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) / std::sqrt((2e0 * n + 1) * (2 - (i == 0)));
   return 0;
 }
 
@@ -85,7 +88,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
diff --git a/src/harmonic_coeffs.hpp b/src/harmonic_coeffs.hpp
index 3f82235..4742a02 100644
--- a/src/harmonic_coeffs.hpp
+++ b/src/harmonic_coeffs.hpp
@@ -87,8 +87,8 @@ public:
 
   ~HarmonicCoeffs() noexcept { deallocate(); }
 
-  /// @brief Resize; check current capacity and only re-allocated data if 
-  ///        needed. m_degree set to new value.
+  /// @brief Resize; re-allocate data if the degree changes or nothing is 
+  ///        allocated yet. m_degree set to new value.
   void resize(int degree) noexcept;
 
 #ifdef DEBUG
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 65903d2..af977fd 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -30,6 +30,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   h.m_degree = 0;
@@ -37,6 +40,8 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+// sqrt[(n+m)! / (n-m)!]; the root is taken factor by factor, because the ratio
+// itself overflows for degrees above 85
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -44,13 +49,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) / std::sqrt((2e0 * n + 1) * (2 - (i == 0)));
   return 0;
 }
 
@@ -65,7 +70,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
-- 
2.43.0


From ebc10bbf561dcc49102462f857d8aea263daeeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 03/75] fix: ICGEM reader handles malformed headers/records,
 order 0, missing degree 1, Fortran exponents and a missing final newline

---
 src/gravity/icgemio_rddata.cpp   | 107 +++++++++++++++++++++++--------
 src/gravity/icgemio_rdhead.cpp   |  65 +++++++++++++------
 src/icgemio.hpp                  |   3 +
 var/icgem/src/icgemio.hpp        |   3 +
 var/icgem/src/icgemio_rddata.cpp | 107 +++++++++++++++++++++++--------
 var/icgem/src/icgemio_rdhead.cpp |  67 +++++++++++++------
 6 files changed, 262 insertions(+), 90 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index a240e93..7a1dc29 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -1,8 +1,9 @@
 #include "icgemio.hpp"
-#include <cassert>
 #include <cstdio>
 #include <cstdlib>
+#include <cctype>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -14,6 +15,32 @@ bool starts_with(const char *pattern, const char *line) noexcept {
   return false;
 }
 
+double dso::icgem_strtod(const char *str, char **end) noexcept {
+  const char *begin = str;
+  double val = std::strtod(str, end);
+  if (*end != str && (**end == 'd' || **end == 'D')) {
+    // re-write the number with a C-style exponent and parse again
+    char buf[512];
+    while (std::isspace(static_cast<unsigned char>(*str)))
+      ++str;
+    const std::size_t mantissa = *end - str;
+    std::size_t size = mantissa + 1;
+    while (str[size] && std::strchr("+-0123456789", str[size]))
+      ++size;
+    if (size < sizeof(buf)) {
+      std::memcpy(buf, str, size);
+      buf[size] = '\0';
+      buf[mantissa] = 'e';
+      char *bend;
+      val = std::strtod(buf, &bend);
+      *end = const_cast<char *>(str) + (bend - buf);
+    } else {
+      *end = const_cast<char *>(begin);
+    }
+  }
+  return val;
+}
+
 std::size_t coeffs_nr(int l, int m) noexcept {
   if (l == m) {
     std::size_t n = l + 1;
@@ -31,7 +58,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   int error = 0;
-  if (l > max_degree || m > l) {
+  if (l < 0 || m < 0 || l > max_degree || m > l) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -63,23 +90,25 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   fin.seekg(data_section_pos);
 
-  // Note (1)
-  // -------------------------------------------------------------------------
-  // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // coefficients not given in the file are zero
+  for (int n = 0; n <= coeffs->degree(); n++) {
+    for (int k = 0; k <= n; k++) {
+      coeffs->C(n, k) = 0e0;
+      if (k)
+        coeffs->S(n, k) = 0e0;
+    }
+  }
 
   char line[max_data_line], *end, *start;
-  int ll, mm;
+  long ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
+  // coefficients met in the file so far
+  std::vector<bool> seen((std::size_t)(l + 1) * (l + 1), false);
+
   fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (!fin.fail() && coeffs_read < coeffs_to_read) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -105,12 +134,20 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
 
         start = end;
-        Clm = std::strtod(start, &end);
+        Clm = icgem_strtod(start, &end);
         if (end == start) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Clm parameter in line: [%s]; icgem "
@@ -120,7 +157,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         }
 
         start = end;
-        Slm = std::strtod(start, &end);
+        Slm = icgem_strtod(start, &end);
         if (end == start) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
@@ -131,9 +168,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        if (!seen[ll * (l + 1) + mm])
+          ++coeffs_read;
+        seen[ll * (l + 1) + mm] = true;
         if (mm == 0) {
-          assert(Slm == 0e0);
+          if (Slm != 0e0) {
+            fprintf(stderr,
+                    "[ERROR] Expected zero Slm parameter in line: [%s]; icgem "
+                    "file %s (traceback: %s)\n",
+                    line, filename.c_str(), __func__);
+            return 1;
+          }
         } else {
           coeffs->S(ll, mm) = Slm;
         }
@@ -144,16 +189,26 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   }
 
   if (coeffs_read < coeffs_to_read) {
-    // before reporting an error, see if we are in the case described in
-    // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
-      printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
-             "written in the icgem file: %s\n",
+    // reading may also have stopped at a line longer than the line buffer
+    if (!fin.eof()) {
+      fprintf(stderr,
+              "[ERROR] Line too long in data section of icgem file %s "
+              "(traceback: %s)\n",
+              filename.c_str(), __func__);
+      return 3;
+    }
+
+    // before reporting an error, note that for some gfc files (e.g. the
+    // EGM2008) it may happen that the values for C_10 and C_11 are missing;
+    // that is because they are nominally zero
+    std::size_t degree_one = 0;
+    for (int k = 0; k <= 1 && l > 0 && k <= m; k++)
+      degree_one += !seen[(l + 1) + k];
+    if (coeffs_to_read - coeffs_read == degree_one) {
+      printf("[NOTE] Coefficients of degree 1 are not explicitly written in the "
+             "icgem file: %s\n",
              filename.c_str());
-      printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
-      coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      printf("[NOTE] Setting them to 0e0\n");
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index cce597d..78a6d00 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -1,5 +1,4 @@
 #include "icgemio.hpp"
-#include <cassert>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -22,6 +21,10 @@ void dso::Icgem::print_details() {
 }
 #endif
 
+static bool is_ws(char c) noexcept {
+  return c == ' ' || c == '\t' || c == '\r';
+}
+
 /// Given a C-String, go to the first non-whitespace character. If the line is
 /// empty or only contains whitespace characters, the returned (pointer to
 /// char) is NULL
@@ -31,14 +34,14 @@ void dso::Icgem::print_details() {
 ///          return '\0'
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && is_ws(*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !is_ws(*s))
     ++s;
   return s;
 }
@@ -53,16 +56,17 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   keyword_size = 0;
 
   // does the line start with the parameter_name string ?
-  if (!std::strncmp(line, parameter_name, psz)) {
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || is_ws(line[psz]))) {
     // start of new word after the keyword in line
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz);
     // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     // parameter_name not matched in begining of line; return NULL
@@ -70,6 +74,20 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   }
 }
 
+/// Copy a header value to dst (of size dsz), null terminated; returns other
+/// than 0 if it does not fit.
+static int copy_value(const char *value, int size, char *dst,
+                      int dsz) noexcept {
+  if (size >= dsz) {
+    fprintf(stderr, "[ERROR] Header value too long: %.*s (traceback: %s)\n",
+            size, value, __func__);
+    return 1;
+  }
+  std::memcpy(dst, value, size);
+  dst[size] = '\0';
+  return 0;
+}
+
 /// @warning this function assumes that comment and header lines do not exceed
 ///          256 characters; this is not guaranteed by the icgem format, but
 ///          practically holds for all cases.
@@ -103,8 +121,8 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, product_type, sizeof(product_type)))
+        error = 1;
     }
 
     // check if this the 'modelname' field (mandatory keyword)
@@ -116,8 +134,8 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, modelname, sizeof(modelname)))
+        error = 1;
     }
 
     // check if this the 'earth_gravity_constant' field (mandatory keyword)
@@ -131,7 +149,7 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       char *end;
-      earth_gravity_constant = std::strtod(keyword, &end);
+      earth_gravity_constant = icgem_strtod(keyword, &end);
       if (end == keyword || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -151,7 +169,7 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       char *end;
-      radius = std::strtod(keyword, &end);
+      radius = icgem_strtod(keyword, &end);
       if (end == keyword || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -190,8 +208,8 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, errors, sizeof(errors)))
+        error = 1;
     }
 
     // check if this the 'tide_system' field (optional keyword)
@@ -203,8 +221,8 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, tide_system, sizeof(tide_system)))
+        error = 1;
     }
 
     // check if this the 'norm' field (optional keyword)
@@ -216,8 +234,8 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, norm, sizeof(norm)))
+        error = 1;
     }
 
     fin.getline(buf, bsz);
@@ -233,6 +251,15 @@ int dso::Icgem::parse_header() noexcept {
 
   } // keep on parsing (header) lines ...
 
+  // without these, the coefficients cannot be interpreted
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree <= 0) {
+    fprintf(stderr,
+            "[ERROR] Missing or invalid mandatory header field(s) in icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
diff --git a/src/icgemio.hpp b/src/icgemio.hpp
index c2fc2e5..0955d0f 100644
--- a/src/icgemio.hpp
+++ b/src/icgemio.hpp
@@ -16,6 +16,9 @@
 
 namespace dso {
 
+/// @brief strtod, that also accepts a Fortran-style exponent (e.g. 1.0D-3)
+double icgem_strtod(const char *str, char **end) noexcept;
+
 /// @brief A class to hold the reading/parsing of ICGEM gravity models.
 /// Download a gfc file from http://icgem.gfz-potsdam.de/tom_longtime and parse
 /// it via this class. Note that the implementation is still incomplete and 
diff --git a/var/icgem/src/icgemio.hpp b/var/icgem/src/icgemio.hpp
index a75b0fb..210a2a2 100644
--- a/var/icgem/src/icgemio.hpp
+++ b/var/icgem/src/icgemio.hpp
@@ -16,6 +16,9 @@
 
 namespace dso {
 
+/// @brief strtod, that also accepts a Fortran-style exponent (e.g. 1.0D-3)
+double icgem_strtod(const char *str, char **end) noexcept;
+
 /// @brief A class to hold the reading/parsing of ICGEM gravity models.
 /// Download a gfc file from http://icgem.gfz-potsdam.de/tom_longtime and parse
 /// it via this class. Note that the implementation is still incomplete and 
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 8f3c87d..cef0167 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -1,8 +1,9 @@
 #include "icgemio.hpp"
-#include <cassert>
 #include <cstdio>
 #include <cstdlib>
+#include <cctype>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -14,6 +15,32 @@ bool starts_with(const char *pattern, const char *line) noexcept {
   return false;
 }
 
+double dso::icgem_strtod(const char *str, char **end) noexcept {
+  const char *begin = str;
+  double val = std::strtod(str, end);
+  if (*end != str && (**end == 'd' || **end == 'D')) {
+    // re-write the number with a C-style exponent and parse again
+    char buf[512];
+    while (std::isspace(static_cast<unsigned char>(*str)))
+      ++str;
+    const std::size_t mantissa = *end - str;
+    std::size_t size = mantissa + 1;
+    while (str[size] && std::strchr("+-0123456789", str[size]))
+      ++size;
+    if (size < sizeof(buf)) {
+      std::memcpy(buf, str, size);
+      buf[size] = '\0';
+      buf[mantissa] = 'e';
+      char *bend;
+      val = std::strtod(buf, &bend);
+      *end = const_cast<char *>(str) + (bend - buf);
+    } else {
+      *end = const_cast<char *>(begin);
+    }
+  }
+  return val;
+}
+
 std::size_t coeffs_nr(int l, int m) noexcept {
   if (l == m) {
     std::size_t n = l + 1;
@@ -30,7 +57,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 ///          enough memmory to hold the (to-be-) parsed coefficients.
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
-  if (l > max_degree || m > l) {
+  if (l < 0 || m < 0 || l > max_degree || m > l) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -55,23 +82,25 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   fin.seekg(data_section_pos);
 
-  // Note (1)
-  // -------------------------------------------------------------------------
-  // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // coefficients not given in the file are zero
+  for (int n = 0; n <= coeffs->degree(); n++) {
+    for (int k = 0; k <= n; k++) {
+      coeffs->C(n, k) = 0e0;
+      if (k)
+        coeffs->S(n, k) = 0e0;
+    }
+  }
 
   char line[max_data_line], *end, *start;
-  int ll, mm;
+  long ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
+  // coefficients met in the file so far
+  std::vector<bool> seen((std::size_t)(l + 1) * (l + 1), false);
+
   fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (!fin.fail() && coeffs_read < coeffs_to_read) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
@@ -97,12 +126,20 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
 
         start = end;
-        Clm = std::strtod(start, &end);
+        Clm = icgem_strtod(start, &end);
         if (end == start) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Clm parameter in line: [%s]; icgem "
@@ -112,7 +149,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         }
 
         start = end;
-        Slm = std::strtod(start, &end);
+        Slm = icgem_strtod(start, &end);
         if (end == start) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
@@ -123,9 +160,17 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        if (!seen[ll * (l + 1) + mm])
+          ++coeffs_read;
+        seen[ll * (l + 1) + mm] = true;
         if (mm == 0) {
-          assert(Slm == 0e0);
+          if (Slm != 0e0) {
+            fprintf(stderr,
+                    "[ERROR] Expected zero Slm parameter in line: [%s]; icgem "
+                    "file %s (traceback: %s)\n",
+                    line, filename.c_str(), __func__);
+            return 1;
+          }
         } else {
           coeffs->S(ll, mm) = Slm;
         }
@@ -136,16 +181,26 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   }
 
   if (coeffs_read < coeffs_to_read) {
-    // before reporting an error, see if we are in the case described in
-    // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
-      printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
-             "written in the icgem file: %s\n",
+    // reading may also have stopped at a line longer than the line buffer
+    if (!fin.eof()) {
+      fprintf(stderr,
+              "[ERROR] Line too long in data section of icgem file %s "
+              "(traceback: %s)\n",
+              filename.c_str(), __func__);
+      return 3;
+    }
+
+    // before reporting an error, note that for some gfc files (e.g. the
+    // EGM2008) it may happen that the values for C_10 and C_11 are missing;
+    // that is because they are nominally zero
+    std::size_t degree_one = 0;
+    for (int k = 0; k <= 1 && l > 0 && k <= m; k++)
+      degree_one += !seen[(l + 1) + k];
+    if (coeffs_to_read - coeffs_read == degree_one) {
+      printf("[NOTE] Coefficients of degree 1 are not explicitly written in the "
+             "icgem file: %s\n",
              filename.c_str());
-      printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
-      coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      printf("[NOTE] Setting them to 0e0\n");
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index eee0992..c78dc2b 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -1,5 +1,4 @@
 #include "icgemio.hpp"
-#include <cassert>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -22,16 +21,20 @@ void dso::Icgem::print_details() {
 }
 #endif
 
+static bool is_ws(char c) noexcept {
+  return c == ' ' || c == '\t' || c == '\r';
+}
+
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && is_ws(*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !is_ws(*s))
     ++s;
   return s;
 }
@@ -40,20 +43,37 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
                                    int &keyword_size) noexcept {
   auto psz = std::strlen(parameter_name);
   keyword_size = 0;
-  if (!std::strncmp(line, parameter_name, psz)) {
-    const char *start = next_non_ws_char(line + psz + 1);
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || is_ws(line[psz]))) {
+    // start of new word after the keyword in line
+    const char *start = next_non_ws_char(line + psz);
+    // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     return nullptr;
   }
 }
 
+/// Copy a header value to dst (of size dsz), null terminated; returns other
+/// than 0 if it does not fit.
+static int copy_value(const char *value, int size, char *dst,
+                      int dsz) noexcept {
+  if (size >= dsz) {
+    fprintf(stderr, "[ERROR] Header value too long: %.*s (traceback: %s)\n",
+            size, value, __func__);
+    return 1;
+  }
+  std::memcpy(dst, value, size);
+  dst[size] = '\0';
+  return 0;
+}
+
 /// @warning this function assumes that comment and header lines do not exceed
 ///          256 characters; this is not guaranteed by the icgem format, but
 ///          practically holds for all cases.
@@ -84,8 +104,8 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, product_type, sizeof(product_type)))
+        return 1;
     }
 
     keyword = resolve_header_keyword("modelname", line, keyword_size);
@@ -96,8 +116,8 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, modelname, sizeof(modelname)))
+        return 1;
     }
 
     keyword =
@@ -110,7 +130,7 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       char *end;
-      earth_gravity_constant = std::strtod(keyword, &end);
+      earth_gravity_constant = icgem_strtod(keyword, &end);
       if (end == keyword || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -129,7 +149,7 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       char *end;
-      radius = std::strtod(keyword, &end);
+      radius = icgem_strtod(keyword, &end);
       if (end == keyword || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -166,8 +186,8 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, errors, sizeof(errors)))
+        return 1;
     }
 
     keyword = resolve_header_keyword("tide_system", line, keyword_size);
@@ -178,8 +198,8 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, tide_system, sizeof(tide_system)))
+        return 1;
     }
 
     keyword = resolve_header_keyword("norm", line, keyword_size);
@@ -190,8 +210,8 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, norm, sizeof(norm)))
+        return 1;
     }
 
     fin.getline(buf, bsz);
@@ -204,6 +224,15 @@ int dso::Icgem::parse_header() noexcept {
     }
   }
 
+  // without these, the coefficients cannot be interpreted
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree <= 0) {
+    fprintf(stderr,
+            "[ERROR] Missing or invalid mandatory header field(s) in icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
-- 
2.43.0


From 75fe9c2e1db207ac9771488c57f78caf09f2a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 04/75] fix: gravity-gradient partials (symmetric elements, m=1
 terms, zonal-only order) and y acceleration of the icgem prototype

---
 src/egravity.hpp                       |  8 ++++++--
 src/gravity/gravity_acceleration.cpp   | 21 ++++++++++++++-------
 src/gravity/lagrange_poly.cpp          | 16 ++++++++++------
 var/icgem/src/gravity_acceleration.cpp |  2 +-
 var/icgem/src/lagrange_poly.cpp        | 16 ++++++++++------
 5 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/egravity.hpp b/src/egravity.hpp
index e524b56..a09f800 100644
--- a/src/egravity.hpp
+++ b/src/egravity.hpp
@@ -168,7 +168,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() >= degree + 2 && V.cols() >= order + 2);
   assert(W.rows() >= degree + 2 && W.cols() >= order + 2);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W));
+  [[maybe_unused]] const int status = dso::lagrange_polynomials(
+      pos, hc.Re(), degree + 1, order + 1, V, W);
+  assert(!status);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc);
 }
@@ -188,7 +190,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() == degree + 3 && V.cols() == order + 3);
   assert(W.rows() == degree + 3 && W.cols() == order + 3);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W));
+  [[maybe_unused]] const int status = dso::lagrange_polynomials(
+      pos, hc.Re(), degree + 2, order + 2, V, W);
+  assert(!status);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc,
                               partials);
diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..a90e95c 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -103,16 +103,23 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // printf("\tGravitational potential (m=0)\n");
   // printf("\t%+15.6f %+15.6f %15.6f\n", xacc, yacc, zacc);
 
-  double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
+  double daxdx_m1(0e0), daxdy_m1(0e0), daxdz_m1(0e0), daydz_m1(0e0),
+      dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; i <= degree && order > 0; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
                           fac * (-3e0 * Cn1 * V(i + 2, 1) - Sn1 * W(i + 2, 1)));
     daxdy_m1 += 0.25e0 * (Cn1 * W(i + 2, 3) - Sn1 * V(i + 2, 3) +
                           fac * (-Cn1 * W(i + 2, 1) - Sn1 * V(i + 2, 1)));
+    /* (n-m+3)! / (n-m)! for m=1 */
+    const double fac3 = (i + 2) * fac;
+    daxdz_m1 += 0.5e0 * (i * (Cn1 * V(i + 2, 2) + Sn1 * W(i + 2, 2)) +
+                         fac3 * (-Cn1 * V(i + 2, 0) - Sn1 * W(i + 2, 0)));
+    daydz_m1 += 0.5e0 * (i * (Cn1 * W(i + 2, 2) - Sn1 * V(i + 2, 2)) +
+                         fac3 * (Cn1 * W(i + 2, 0) - Sn1 * V(i + 2, 0)));
     dazdz_m1 += (double)(i * (i + 1)) * (Cn1 * V(i + 2, 1) + Sn1 * W(i + 2, 1));
 
     fac *= ((double)(i + 2) / (double)i);
@@ -203,14 +210,14 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // Sum-up partial derivatives, column-wise
   partials(0, 0) = daxdx_m0 + daxdx_m1 + daxdx_m2; // dax/dx
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
-  partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
+  partials(2, 0) = daxdz_m0 + daxdz_m1 + daxdz_m2;            // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
+  partials(0, 1) = partials(1, 0);      // day/dx
   partials(1, 1) = 1e0;                 // day/dy
-  partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
+  partials(2, 1) = daydz_m0 + daydz_m1 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index fea9ca7..4a1e821 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -41,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
diff --git a/var/icgem/src/gravity_acceleration.cpp b/var/icgem/src/gravity_acceleration.cpp
index cd53e5b..b9fdd48 100644
--- a/var/icgem/src/gravity_acceleration.cpp
+++ b/var/icgem/src/gravity_acceleration.cpp
@@ -41,7 +41,7 @@ int dso::grav_potential_accel(
       xacc2 += 0.5e0 * (-Cnm * Vnp1mp1 - Snm * Wnp1mp1) +
                fac * (Cnm * Vnp1mm1 + Snm * Wnp1mm1);
       yacc2 += 0.5e0 * (-Cnm * Wnp1mp1 + Snm * Vnp1mp1) +
-               fac * (-Cnm * Vnp1mm1 + Snm * Wnp1mm1);
+               fac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
     }
   }
diff --git a/var/icgem/src/lagrange_poly.cpp b/var/icgem/src/lagrange_poly.cpp
index bd8848d..73bc5e5 100644
--- a/var/icgem/src/lagrange_poly.cpp
+++ b/var/icgem/src/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -41,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
-- 
2.43.0


From 40737f5e1eff60effb8a23b8661f63e30196d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 05/75] fix: point_mass_accel in the icgem prototype header is
 inline (multiple definitions at link)

---
 var/icgem/src/egravity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/icgem/src/egravity.hpp b/var/icgem/src/egravity.hpp
index 1b57e51..b0acb6c 100644
--- a/var/icgem/src/egravity.hpp
+++ b/var/icgem/src/egravity.hpp
@@ -14,7 +14,7 @@ namespace dso {
 /// @param[in] robj Point mass position vector (e.g. moon)
 /// @return A vector containing the acceleration components
 /// @see e.g. Curtis, Chapter 10.10
-Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
+inline Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
                          double GM) noexcept {
   //  Relative position vector of satellite w.r.t. point mass
   auto d = rsat - robj;
-- 
2.43.0


From efbc4d291cad8be6c2877c533ffabbcf54fc40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 06/75] fix: point-mass acceleration partials are the
 derivative with respect to the satellite position

---
 src/gravity/point_mass_acceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..e931d0a 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
+  const double dn5 = dn2 * dn2 * dn;
   partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  -3e0 * (d*d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
-- 
2.43.0


From 56a4fb267727084daf087f6935d9f0f97a2e9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 07/75] fix: kernel book-keeping compares whole names, sees
 text PCKs and reports missing GM values

---
 src/planets/cspice_utils.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/planets/cspice_utils.cpp b/src/planets/cspice_utils.cpp
index 6db24e9..d455b38 100644
--- a/src/planets/cspice_utils.cpp
+++ b/src/planets/cspice_utils.cpp
@@ -1,7 +1,7 @@
 #include "planetpos.hpp"
 #include <cstring>
 
-#define  FILLEN   128                                                           
+#define  FILLEN   256
 #define  TYPLEN   32                                                            
 #define  SRCLEN   128
 
@@ -20,7 +20,7 @@ int dso::cspice::load_if_unloaded_lsk(const char *lsk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, lsk_kernel, std::strlen(lsk_kernel))) return 0;
+      if (found && !std::strcmp(file, lsk_kernel)) return 0;
     }
   }
 
@@ -42,7 +42,7 @@ int dso::cspice::load_if_unloaded_spk(const char *spk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "spk", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, spk_kernel, std::strlen(spk_kernel))) return 0;
+      if (found && !std::strcmp(file, spk_kernel)) return 0;
     }
   }
 
@@ -57,14 +57,14 @@ int dso::cspice::load_if_unloaded_pck(const char *pck_kernel) noexcept {
   SpiceChar source[SRCLEN];
   SpiceBoolean found;
 
-  // get number of spk kernels loaded ... 
-  ktotal_c("pck", &count);
-
-  if (count) {
+  // a PCK can either be binary ("pck") or text ("text"); check both lists
+  const char *kinds[] = {"pck", "text"};
+  for (const char *kind : kinds) {
+    ktotal_c(kind, &count);
     for (which = 0; which < count; which++) {
-      kdata_c(which, "pck", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
+      kdata_c(which, kind, FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, pck_kernel, std::strlen(pck_kernel))) return 0;
+      if (found && !std::strcmp(file, pck_kernel)) return 0;
     }
   }
 
@@ -77,9 +77,10 @@ int dso::get_sun_moon_GM(const char *pck_kernel, double &GMSun,
   if (pck_kernel)
     dso::cspice::load_if_unloaded_pck(pck_kernel);
 
-  int n;
-  bodvrd_c("SUN", "GM", 1, &n, &GMSun);  // [km^3/ sec^2]
-  bodvrd_c("MOON", "GM", 1, &n, &GMMoon); // [km^3/ sec^2]
+  int nsun = 0, nmoon = 0;
+  bodvrd_c("SUN", "GM", 1, &nsun, &GMSun);  // [km^3/ sec^2]
+  bodvrd_c("MOON", "GM", 1, &nmoon, &GMMoon); // [km^3/ sec^2]
 
-  return 0;
+  // one value is expected for each body
+  return !(nsun == 1 && nmoon == 1);
 }
-- 
2.43.0


From 7806fa1eb45d596c15a43c3a7c2d635545125d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 08/75] fix: SunMoon returns the Sun acceleration in m/sec^2

---
 src/sunmoon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunmoon.cpp b/src/sunmoon.cpp
index aa12e71..ed42372 100644
--- a/src/sunmoon.cpp
+++ b/src/sunmoon.cpp
@@ -29,7 +29,7 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
 
   // Sun-induced acceleration [km/sec^2]
   sun_acc = dso::point_mass_accel(GMSun, rsat * 1e-3, rSun);
-  sun_acc = sun_acc * 1e-3; // [m/sec^2]
+  sun_acc = sun_acc * 1e3; // [m/sec^2]
 
   // Moon-induced acceleration [m/sec^2]
   moon_acc =
-- 
2.43.0


From 0067cfed307bbe3c8dfede363818ae1e76eb040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 09/75] fix: obliquity rate in sun_vector_curtis (3.56e-7
 deg/day)

---
 src/planets/sunpos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planets/sunpos.cpp b/src/planets/sunpos.cpp
index 71f57d9..a2f5bbd 100644
--- a/src/planets/sunpos.cpp
+++ b/src/planets/sunpos.cpp
@@ -114,7 +114,7 @@ int dso::sun_vector_curtis(double n, double *rsun) noexcept {
                                    0.0200e0 * sin(2e0 * dso::deg2rad(M)),
                                360e0);
   // Calculate the obliquity ε [deg]
-  const double e = 23.439e0 - 3.65e-7 * n;
+  const double e = 23.439e0 - 3.56e-7 * n;
   // Calculate the unit vector u_n from the earth to the sun
   const double ux = cos(dso::deg2rad(lon));
   const double uy = cos(dso::deg2rad(e)) * sin(dso::deg2rad(lon));
-- 
2.43.0


From 598d30bd29270f517c944b7803e8c5a5d8ec5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 10/75] fix: third row of perifocal2equatorial_matrix uses the
 argument of pericenter

---
 src/astrodynamics/perifocal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
-- 
2.43.0


From 964e01eaa259c11318e23ac5a5f416355ef3430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 11/75] fix: elements2state (Eigen) rotates by Omega, i, omega
 in that order

---
 src/astrodynamics/state2kepler.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..5d5353f 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -75,21 +75,22 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   //printf("perifocal coordinates: r=[%+20.10f %+20.10f %20.10f]\n", Y(0),Y(1),Y(2));
   //printf("                       v=[%+20.10f %+20.10f %20.10f]\n", Y(3),Y(4),Y(5));
 
-  // matrix Rz(-Ω)Rx(-i)Rz(-ω)=T , see Gurfil et al, eq. 5.2
+  // matrix Rz(-Ω)Rx(-i)Rz(-ω)=T , see Gurfil et al, eq. 5.2 (frame rotations,
+  // aka positive rotation angles for AngleAxisd)
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
-                    Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+  Eigen::Matrix3d R(Eigen::AngleAxisd(Omega, Eigen::Vector3d::UnitZ()) *
+                    Eigen::AngleAxisd(i, Eigen::Vector3d::UnitX()) *
+                    Eigen::AngleAxisd(omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
   //printf("xAngle %+10.5f yAngle %+10.5f zAngle %+10.5f\n", dso::rad2deg(Omega), dso::rad2deg(i), dso::rad2deg(omega));
 
   // rotate to get equatorial, aka geocentric/(quasi-)inertial
-  Y.block<3,1>(0,0) = R.transpose() * Y.block<3,1>(0,0);
-  Y.block<3,1>(3,0) = R.transpose() * Y.block<3,1>(3,0);
+  Y.block<3,1>(0,0) = R * Y.block<3,1>(0,0);
+  Y.block<3,1>(3,0) = R * Y.block<3,1>(3,0);
   //printf("inertial coordinates: r=[%+20.10f %+20.10f %20.10f]\n", Y(0),Y(1),Y(2));
   //printf("                      v=[%+20.10f %+20.10f %20.10f]\n", Y(3),Y(4),Y(5));
   return Y;
-- 
2.43.0


From 3b4e5a1bc1a90002822c6c258763359f90ed410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 12/75] fix: state_partials is defined for equatorial orbits

---
 src/astrodynamics/state_partials.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/state_partials.cpp b/src/astrodynamics/state_partials.cpp
index a50daa4..7895e96 100644
--- a/src/astrodynamics/state_partials.cpp
+++ b/src/astrodynamics/state_partials.cpp
@@ -20,12 +20,10 @@ Eigen::Matrix<double, 6, 6> dso::state_partials(double GM,
       Eigen::AngleAxisd(ele.omega(), Eigen::Vector3d::UnitZ()));
   const auto P = PQW.block<3, 1>(0, 0); // first column
   const auto Q = PQW.block<3, 1>(0, 1); // second column
-  const auto W = PQW.block<3, 1>(0, 2); // third column
-  
-  auto N = Eigen::Vector3d::UnitZ().cross(W);
-  N = N / N.norm();
 
-  // const Vector3 n({std::cos(ele.Omega(), std::sin(ele.Omega), 0e0});
+  // unit vector to the ascending node (also defined for equatorial orbits)
+  const Eigen::Vector3d N(std::cos(ele.Omega()), std::sin(ele.Omega()), 0e0);
+
   const auto dPdi = N.cross(P);
   const auto dPdO = Eigen::Vector3d::UnitZ().cross(P);
   const auto dPdo = Q;
-- 
2.43.0


From a02374eeb5df45ac98b3b5b74c1e96d8570c3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 13/75] fix: pos2ad returns a number at and near the poles

---
 src/astrodynamics/pos2ra.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/astrodynamics/pos2ra.cpp b/src/astrodynamics/pos2ra.cpp
index 2a9bf8f..9d04a08 100644
--- a/src/astrodynamics/pos2ra.cpp
+++ b/src/astrodynamics/pos2ra.cpp
@@ -19,14 +19,9 @@ int dso::pos2ad(const Vector3 &pos, double &a, double &d) noexcept {
 #endif
   d = std::asin(n); // range [-pi/2 to pi/2]
   
-  // Calculate the right ascension
-  const double af = std::acos(l / std::cos(d));
-#ifdef BRANCHLESS
-  const double ret[] = {iers2010::D2PI - af, af};
-  a = ret[m>0];
-#else
-  a = (m<=0) ? (iers2010::D2PI - af) : af;
-#endif
+  // Calculate the right ascension, range [0, 2pi)
+  const double af = std::atan2(m, l);
+  a = (af < 0e0) ? (iers2010::D2PI + af) : af;
 
   return 0;
 }
-- 
2.43.0


From 6d9d6581ea58bb877b8526d8c966cfa4004b39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 14/75] fix: state to elements for circular and equatorial
 orbits (no NaN, no lost angles), eccentric anomaly of the montenbruck variant

---
 src/astrodynamics/state2kepler.cpp | 153 +++++++++++------------------
 1 file changed, 58 insertions(+), 95 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index 5d5353f..7e70643 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -13,6 +13,32 @@
 
 using dso::Vector3;
 
+namespace {
+/// @brief Angles of an orbit, given the angular momentum vector h, the
+///        eccentricity vector ev and the position vector r. All quadrants are
+///        resolved via atan2, and the angles are also well defined for:
+///        * equatorial orbits; the ascending node is placed on the x-axis,
+///        * circular orbits; the pericenter is placed on the ascending node
+void orbit_angles(const Vector3 &h, const Vector3 &ev, const Vector3 &r,
+                  double &i, double &Omega, double &omega,
+                  double &theta) noexcept {
+  const double hmag = h.norm();
+  // node line, k x h
+  const double N = std::sqrt(h.x() * h.x() + h.y() * h.y());
+  const Vector3 n{{N > 0e0 ? -h.y() / N : 1e0, N > 0e0 ? h.x() / N : 0e0, 0e0}};
+  // completes the triad in the orbital plane, h x n
+  const Vector3 m = h.cross_product(n) / hmag;
+
+  i = std::atan2(N, h.z());
+  Omega = dso::norm_angle<double, dso::AngleUnit::Radians>(
+      std::atan2(n.y(), n.x()));
+  omega = dso::norm_angle<double, dso::AngleUnit::Radians>(
+      std::atan2(ev.dot_product(m), ev.dot_product(n)));
+  theta = dso::norm_angle<double, dso::AngleUnit::Radians>(
+      std::atan2(r.dot_product(m), r.dot_product(n)) - omega);
+}
+} // namespace
+
 int dso::elements2state(const dso::OrbitalElements &ele, double dt,
                         dso::Vector3 &r, dso::Vector3 &v, double GM) noexcept {
   // mean anomaly M at time t
@@ -100,14 +126,20 @@ int dso::state2elements(const dso::Vector3 &r, const dso::Vector3 &v,
                         dso::OrbitalElements &ele, double GM) noexcept {
   const Vector3 h = r.cross_product(v);
   const double hmag = h.norm();
+  // equatorial orbit, node on the x-axis
+  const bool equatorial = (h.x() == 0e0 && h.y() == 0e0);
 
-  ele.Omega() = dso::norm_angle<double, dso::AngleUnit::Radians>(
-      std::atan2(h.x(), -h.y()));
+  ele.Omega() = equatorial ? 0e0
+                           : dso::norm_angle<double, dso::AngleUnit::Radians>(
+                                 std::atan2(h.x(), -h.y()));
   ele.inclination() =
       std::atan2(std::sqrt(h.x() * h.x() + h.y() * h.y()), h.z());
 
   // argument of latitude
-  const double u = std::atan2(r.z() * hmag, -r.x() * h.y() + r.y() * h.x());
+  const double u =
+      equatorial
+          ? std::atan2(h.z() < 0e0 ? -r.y() : r.y(), r.x())
+          : std::atan2(r.z() * hmag, -r.x() * h.y() + r.y() * h.x());
 
   const double rmag = r.norm();
   ele.semimajor() = 1e0 / (2e0 / rmag - v.dot_product(v) / GM);
@@ -141,14 +173,18 @@ dso::OrbitalElements dso::state2elements(double GM, const Eigen::Matrix<double,
   const double H = h.norm();
 
   dso::OrbitalElements ele;
+  // equatorial orbit, node on the x-axis
+  const bool equatorial = (h(0) == 0e0 && h(1) == 0e0);
 
-  ele.Omega() = dso::norm_angle<double, dso::AngleUnit::Radians>(
-      std::atan2(h(0), -h(1)));
+  ele.Omega() = equatorial ? 0e0
+                           : dso::norm_angle<double, dso::AngleUnit::Radians>(
+                                 std::atan2(h(0), -h(1)));
   ele.inclination() =
       std::atan2(std::sqrt(h(0)*h(0)+h(1)*h(1)), h(2));
   
   // argument of latitude
-  const double u = std::atan2(r(2)*H, -r(0)*h(1)+r(1)*h(0));
+  const double u = equatorial ? std::atan2(h(2) < 0e0 ? -r(1) : r(1), r(0))
+                              : std::atan2(r(2)*H, -r(0)*h(1)+r(1)*h(0));
 
   const double R = r.norm();
   ele.semimajor() = 1e0 / (2e0/R-(v.dot(v))/GM); 
@@ -187,20 +223,22 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const Vector3 W{{h.x() / hmag, h.y() / hmag, h.z() / hmag}};
 
   keplerian[1] = std::atan2(std::sqrt(W.x() * W.x() + W.y() * W.y()), W.z());
-  keplerian[2] = std::atan2(W.x(), -W.y());
+  // equatorial orbit, node on the x-axis
+  const bool equatorial = (W.x() == 0e0 && W.y() == 0e0);
+  keplerian[2] = equatorial ? 0e0 : std::atan2(W.x(), -W.y());
 
-  const double p = h.norm_squared() / m;
   const double a = 1e0 / ((2e0 / rmag) - (v.norm_squared() / m));
   const double n = std::sqrt(m / (a * a * a));
-  const double e = std::sqrt(1e0 - (p / a));
-  keplerian[3] = e;
-
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
-  const double sE = std::sin(E);
+  const double eSinE = r.dot_product(v) / (a * a * n);
+  const double eCosE = 1e0 - rmag / a;
+  const double e2 = eSinE * eSinE + eCosE * eCosE;
+  keplerian[3] = std::sqrt(e2);
   // const double M = E - e * sE;
 
-  const double u = std::atan2(r.z(), -r.x() * W.y() + r.y() * W.x());
-  const double t = std::atan2(std::sqrt(1e0 - e * e) * sE, std::cos(E) - e);
+  const double u =
+      equatorial ? std::atan2(W.z() < 0e0 ? -r.y() : r.y(), r.x())
+                 : std::atan2(r.z(), -r.x() * W.y() + r.y() * W.x());
+  const double t = std::atan2(std::sqrt(1e0 - e2) * eSinE, eCosE - e2);
   keplerian[4] = u - t;
   keplerian[5] = t;
 
@@ -219,9 +257,6 @@ int dso::alternatives::state2kepler_vallado(const double *state,
   const double hnorm = h.norm();
   keplerian[0] = hnorm;
 
-  const Vector3 n{{-h.y(), h.x(), 0e0}}; // N = k_unit x h
-  const double nnorm = n.norm();
-
   Vector3 e = r * (v.norm_squared() - m / rnorm) - v * (r.dot_product(v));
   e /= m;
   double enorm = e.norm();
@@ -242,22 +277,7 @@ int dso::alternatives::state2kepler_vallado(const double *state,
   //  enorm * enorm);
   //#endif
 
-  keplerian[1] = std::acos(h.z() / hnorm);
-
-  double Omega = std::acos(n.x() / nnorm);
-  if (n.y() < 0e0)
-    Omega = iers2010::D2PI - Omega;
-  keplerian[2] = Omega;
-
-  double omega = std::acos(n.dot_product(e) / (nnorm * enorm));
-  if (e.z() < 0e0)
-    omega = iers2010::D2PI - omega;
-  keplerian[4] = omega;
-
-  double ni = std::acos(e.dot_product(r) / (enorm * rnorm));
-  if (r.dot_product(v) < 0e0)
-    ni = iers2010::D2PI - ni;
-  keplerian[5] = ni;
+  orbit_angles(h, e, r, keplerian[1], keplerian[2], keplerian[4], keplerian[5]);
 
   return 0;
 }
@@ -282,37 +302,6 @@ int dso::state2kepler(const double *state, double *keplerian,
   // and its magnitude (h); This is the first orbital element.
   keplerian[0] = hv.norm();
 
-  // Calculate the inclination (i); this is the second orbital element.
-  // Recall that i must lie between 0° and 180°, which is precisely the range
-  // (principal values) of the acos function
-  // (https://en.cppreference.com/w/cpp/numeric/math/acos). Hence, there is no
-  // quadrant ambiguity to contend with here. If 90° < i  180°, the angular
-  // momentum h points in a southerly direction. In that case, the orbit is
-  // retrograde, which means that the motion of the satellite around the earth
-  // is opposite to earth’s rotation.
-  keplerian[1] = std::acos(hv.z() / keplerian[0]);
-
-  // calculate N = k x h ; this vector defines the node line.
-  const Vector3 Nv{{-hv.y(), hv.x(), 0e0}};
-  const double N = Nv.norm();
-
-  // Calculate the right ascension of the ascending node (Omega).
-  // This is the third orbital element. If NX>0, then Ω lies in either the
-  // first or fourth quadrant. If NX < 0, then Ω lies in either the second or
-  // third quadrant. To place Ω in the proper quadrant, observe that the
-  // ascending node lies on the positive side of the vertical XZ plane
-  // (0 <  Ω < 180°) if NY > 0. On the other hand, the ascending node lies on
-  // the negative side of the XZ plane (180° < Ω < 360°) if NY < 0. Therefore,
-  // NY > 0 implies that 0  Ω < 180°, whereas NY < 0 implies that
-  // 180° < Ω < 360°
-  const double Nf = std::acos(Nv.x() / N);
-#ifdef BRANCHLESS
-  const double retN[] = {Nf, iers2010::D2PI - Nf};
-  keplerian[2] = retN[Nv.y() < 0e0];
-#else
-  keplerian[2] = (Nv.y() < 0e0) ? (iers2010::D2PI - Nf) : Nf;
-#endif
-
   // Calculate the eccentricity vector e
   const Vector3 ev = (pos * (v * v - (m / r)) - vel * (r * vr)) / m;
   // or ... just compute the magnitude ...., the forth orbital element
@@ -320,36 +309,10 @@ int dso::state2kepler(const double *state, double *keplerian,
   const double e = ev.norm();
   keplerian[3] = e;
 
-  // Calculate the argument of perigee.
-  // This is the fifth orbital element. If Ne > 0, then ω lies in either the
-  // first or fourth quadrant. If Ne < 0, then ω lies in either the second or
-  // third quadrant. To place ω in the proper quadrant, observe that perigee
-  // lies above the equatorial plane (0°  ω < 180°) if e points up (in the
-  // positive Z direction) and that perigee lies below the plane
-  // (180°  ω < 360°) if e points down. Therefore, eZ >=  0 implies that
-  // 0° < ω < 180°, whereas eZ < 0 implies that 180° < ω < 360°.
-  const double Of = std::acos(Nv.dot_product(ev) / N / e);
-#ifdef BRANCHLESS
-  const double retO[] = {Of, iers2010::D2PI - Of};
-  keplerian[4] = retO[ev.z() < 0e0];
-#else
-  keplerian[4] = (ev.z() < 0e0) ? (iers2010::D2PI - Of) : Of;
-#endif
-
-  // Calculate true anomaly.
-  // This is the sixth and final orbital element. If e*r > 0, then θ lies in
-  // the first or fourth quadrant. If e*r < 0, then θ lies in the second or
-  // third quadrant. To place θ in the proper quadrant, note that if the
-  // satellite is flying away from perigee (r*v >= 0), then 0 <  θ < 180°,
-  // whereas if the satellite is flying toward perigee (r*v < 0), then
-  // 180° < θ < 360°.
-  const double Tf = std::acos(ev.dot_product(pos) / e / r);
-#ifdef BRANCHLESS
-  const double retT[] = {Tf, iers2010::D2PI - Tf};
-  keplerian[5] = retT[vr < 0e0];
-#else
-  keplerian[5] = (vr < 0e0) ? (iers2010::D2PI - Tf) : Tf;
-#endif
+  // Calculate the inclination, right ascension of the ascending node, argument
+  // of perigee and true anomaly (second, third, fifth and sixth element).
+  orbit_angles(hv, ev, pos, keplerian[1], keplerian[2], keplerian[4],
+               keplerian[5]);
 
   return 0;
 }
-- 
2.43.0


From 6ad874f7044a1ac93c7be2923700129f39852943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 15/75] fix: conical_shadow for collinear geometry (NaN) and
 for an Earth disc smaller than the Sun's

---
 src/astrodynamics/occultation.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..f137cd3 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -77,8 +77,13 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double te = std::asin(iers2010::Re / r_sat.norm());
   const double nsunsat = (r_sun - r_sat).norm();
   const double ts = std::asin(iers2010::Rs / nsunsat);
+  // keep arccos arguments in range; they may exceed it by rounding (e.g. for
+  // collinear geometry)
+  auto safe_acos = [](double x) noexcept {
+    return std::acos(x > 1e0 ? 1e0 : (x < -1e0 ? -1e0 : x));
+  };
   const double tes =
-      std::acos(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
+      safe_acos(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
 
   if (tes >= te + ts)
     return 1e0;
@@ -88,8 +93,12 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double ts2 = ts * ts;
   const double te2 = te * te;
   const double tes2 = tes * tes;
-  const double caf = std::acos((ts2 + tes2 - te2) / (2e0 * ts * tes));
-  const double cbd = std::acos((te2 + tes2 - ts2) / (2e0 * te * tes));
+  // whole Earth disc in front of the solar disc (annular eclipse)
+  if (tes <= ts - te)
+    return 1e0 - te2 / ts2;
+
+  const double caf = safe_acos((ts2 + tes2 - te2) / (2e0 * ts * tes));
+  const double cbd = safe_acos((te2 + tes2 - ts2) / (2e0 * te * tes));
   const double Safc = 0.5 * caf * ts2;
   const double Saec = 0.5 * (ts * std::sin(caf)) * (ts * std::cos(caf));
   const double Sbdc = 0.5 * cbd * te2;
-- 
2.43.0


From 3217a7e580bfebb05f3222644d09c4ca2493c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 16/75] fix: vallado_shadow measures the angle from the
 anti-sun direction and handles collinear geometry

---
 src/astrodynamics/occultation.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index f137cd3..9e2b6e9 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -1,4 +1,5 @@
 #include "astrodynamics.hpp"
+#include <algorithm>
 #include <cmath>
 #include "gcem.hpp" // for constexpr math (trigonometric funcs)
 #include "geodesy/ellipsoid.hpp"
@@ -21,9 +22,9 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
 
   const double r = r_sat.norm();
   const double s = r_sun.norm();
-  const double cosz = product / (r * s);
-  const double zeta = std::acos(cosz);
-  const double sinz = std::sin(zeta);
+  // angle between satellite and anti-sun direction (Vallado, Algorithm 34)
+  const double cosz = std::min(-product / (r * s), 1e0);
+  const double sinz = std::sqrt(1e0 - cosz * cosz);
   const double sath = r * cosz;
   const double satv = r * sinz;
   constexpr const double sinApen = (iers2010::Rs + iers2010::Re) / iers2010::AU;
-- 
2.43.0


From 351a7a72a7996cc29d21461be34125ae190b5802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 17/75] fix: bernese_shadow1 reported a satellite exactly
 behind the Earth as sunlit (sqrt of a negative)

---
 src/astrodynamics/occultation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index 9e2b6e9..7193f0e 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -68,7 +68,7 @@ double utest::bernese_shadow1(const dso::Vector3 &r_sat,
     const double rsun = zsun.norm();
     const double rsat2 = zsat.norm_squared();
     const double rcos = zsat.dot_product(zsun) / rsun;
-    const double rsin = std::sqrt(rsat2-rcos*rcos);
+    const double rsin = std::sqrt(std::max(rsat2-rcos*rcos, 0e0));
     if (rcos<0e0 && (rsin-iers2010::Re<0e0)) return 0e0;
     return 1;
 }
-- 
2.43.0


From a14a81b0cbd5a47e229c19b5f6feddd558318a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 18/75] fix: drag_accel (true-of-date) kept an Eigen expression
 of destroyed temporaries

---
 src/astrodynamics/drag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..34c30ca 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,12 +26,12 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
-  const auto vabs = vrel.norm();
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
+  const double vabs = vrel.norm();
 
   // Acceleration
   Eigen::Matrix<double, 3, 1> acc =
-- 
2.43.0


From bc43be180ea5cfb5b8525d63aad8a6edede3f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 19/75] fix: solar radiation partial w.r.t. C for C=0

---
 src/astrodynamics/solar_radiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/solar_radiation.cpp b/src/astrodynamics/solar_radiation.cpp
index 963a1fb..cdc261f 100644
--- a/src/astrodynamics/solar_radiation.cpp
+++ b/src/astrodynamics/solar_radiation.cpp
@@ -42,7 +42,7 @@ dso::solar_radiation_acceleration(const Eigen::Matrix<double, 3, 1> &rsat,
       C * (Area / mass) * P0 * AU2 * d / D3;
 
   // partials w.r.t C, see Monentbruck, 7.3.3
-  dadC = acceleration / C;
+  dadC = (Area / mass) * P0 * AU2 * d / D3;
 
   return acceleration;
 }
-- 
2.43.0


From a17fe44b2be5a498be90b1d85d33fd57949fb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 20/75] fix: drag partials are null, not NaN, at rest relative
 to the atmosphere

---
 src/astrodynamics/drag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 34c30ca..b53977e 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -85,10 +85,11 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   // partials w.r.t drag coefficient (Montenbruck, 7.80)
   daccdC = -0.5e0 * (Area / Mass) * atmdens * vrel.norm() * vrel;
 
-  // partials w.r.t velocity (Montenbruck, 7.81)
+  // partials w.r.t velocity (Montenbruck, 7.81); vrel.normalized() is null for
+  // null vrel (no division by zero)
   daccdv = -0.5e0 * CD * (Area / Mass) * atmdens *
            (vrel.norm() * Eigen::Matrix<double, 3, 3>::Identity() +
-            vrel * vrel.transpose() / vrel.norm());
+            vrel * vrel.normalized().transpose());
 
   // Partials w.r.t. position vector (Montenbruck, 7.84)
   const double _data[] = {
-- 
2.43.0


From 974753b8751a9d79c22530c9687c570c4c3ac641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 21/75] fix: SGOde step: count failures per step, order/step
 choice after failures, roundoff control evaluates its vectors

---
 src/integrators/sgode.hpp      |  3 ---
 src/integrators/sgode_step.cpp | 16 ++++++----------
 var/ode_solvers/sgode_step.cpp | 10 +++++-----
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/integrators/sgode.hpp b/src/integrators/sgode.hpp
index 1adaa71..1c2cfa6 100644
--- a/src/integrators/sgode.hpp
+++ b/src/integrators/sgode.hpp
@@ -34,9 +34,6 @@ public:
   Eigen::Ref<Eigen::VectorXd> wt()    noexcept { return ArraysNeqn.col(0); }
   Eigen::Ref<Eigen::VectorXd> p()     noexcept { return ArraysNeqn.col(1); }
   Eigen::Ref<Eigen::VectorXd> yy()    noexcept { return ArraysNeqn.col(2); }
-  // !! Warning !! //
-  // Column 3 of ArraysNeqn should be 3, do not change this!
-  // see the bug in sgode_step.cpp ~line 330
   Eigen::Ref<Eigen::VectorXd> yp()    noexcept { return ArraysNeqn.col(3); }
   Eigen::Ref<Eigen::VectorXd> ypout() noexcept { return ArraysNeqn.col(4); }
   double &wt   (int i) noexcept { return ArraysNeqn(i,0); }
diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index f237283..859e77c 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -45,7 +45,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  // failures within this step
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), *params);
@@ -66,7 +67,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +215,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -302,7 +302,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -339,12 +339,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    // TODO 
-    // the following line produces an error when compiling with GCC in 
-    // non-debug mode.
-    // Don't have a fucking clue why!!!
-    // const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
-    const auto rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
+    // evaluate here; an (auto) expression would reference the temporary yp()
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index 1d47793..a1b4028 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -45,7 +45,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  // failures within this step
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), params);
@@ -66,7 +67,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -215,7 +215,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -296,7 +296,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       double t2 = 5e-1;
       if (ifail == 3) {
         knew = 1;
-      } else if (ifail < 3) {
+      } else if (ifail > 3) {
         if (p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
@@ -331,7 +331,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
-- 
2.43.0


From f5ee4fd6c05621f28190eb0498425361739c8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 22/75] fix: SGOde driver: initialised state, restart after a
 hard-stop call, zero tolerances invalid, no shallow copies

---
 src/integrators/sgode.hpp    | 14 +++++++++-----
 src/integrators/sgode_de.cpp | 10 ++++++----
 var/ode_solvers/sgode.hpp    | 14 +++++++++-----
 var/ode_solvers/sgode_de.cpp | 10 ++++++----
 4 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/integrators/sgode.hpp b/src/integrators/sgode.hpp
index 1c2cfa6..4bf38fa 100644
--- a/src/integrators/sgode.hpp
+++ b/src/integrators/sgode.hpp
@@ -17,6 +17,10 @@ public:
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
   }
 
+  // owns the memory of Arrays13
+  SGOde(const SGOde &) = delete;
+  SGOde &operator=(const SGOde &) = delete;
+
   ~SGOde() noexcept {
     if (Arrays13) delete[] Arrays13;
   }
@@ -109,14 +113,14 @@ public:
   ODEfun f;
   int neqn;
   int iflag;
-  int start,phase1,nornd,isnold,kold,k,ns;
+  int start{1},phase1{1},nornd{1},isnold{1},kold{0},k{1},ns{0};
   Eigen::MatrixXd Phi; // dimension 
   Eigen::MatrixXd ArraysNeqn; // dimension 
   double *Arrays13;
-  double h,hold;
-  double x;
-  double /*t,*/told;
-  double delsgn;
+  double h{0e0},hold{0e0};
+  double x{0e0};
+  double /*t,*/told{0e0};
+  double delsgn{0e0};
   double relerr,abserr;
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index fd6b188..b291033 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -54,8 +54,10 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const int isn = std::copysign(1, iflag);
   iflag = std::abs(iflag);
 
-  if (iflag<0 || iflag > 5)
+  if (iflag > 5) {
+    iflag = 6;
     return 1;
+  }
 
   // on each call set interval of integration and counter for number of
   // steps.  adjust input error tolerances to define weight vector for
@@ -73,7 +75,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode.hpp b/var/ode_solvers/sgode.hpp
index a443edb..a278eda 100644
--- a/var/ode_solvers/sgode.hpp
+++ b/var/ode_solvers/sgode.hpp
@@ -23,6 +23,10 @@ public:
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
   }
 
+  // owns the memory of Arrays13
+  SGOde(const SGOde &) = delete;
+  SGOde &operator=(const SGOde &) = delete;
+
   ~SGOde() noexcept {
     if (Arrays13) delete[] Arrays13;
   }
@@ -113,14 +117,14 @@ public:
   ODEfun f;
   int neqn;
   int iflag;
-  int start,phase1,nornd,isnold,kold,k,ns;
+  int start{1},phase1{1},nornd{1},isnold{1},kold{0},k{1},ns{0};
   Eigen::MatrixXd Phi; // dimension 
   Eigen::MatrixXd ArraysNeqn; // dimension 
   double *Arrays13;
-  double h,hold;
-  double x;
-  double /*t,*/told;
-  double delsgn;
+  double h{0e0},hold{0e0};
+  double x{0e0};
+  double /*t,*/told{0e0};
+  double delsgn{0e0};
   double relerr,abserr;
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 4d18b88..98a22c4 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -54,8 +54,10 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const int isn = std::copysign(1, iflag);
   iflag = std::abs(iflag);
 
-  if (iflag<0 || iflag > 5)
+  if (iflag > 5) {
+    iflag = 6;
     return 1;
+  }
 
   // on each call set interval of integration and counter for number of
   // steps.  adjust input error tolerances to define weight vector for
@@ -73,7 +75,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
-- 
2.43.0


From 1d7bf4d685e4265b3bc0715b72e51d26755b928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 23/75] fix: RKF45 step-size formulas use the fifth root, error
 weights index the state, members initialised

---
 var/ode_solvers/rkf45.hpp      | 12 ++++++------
 var/ode_solvers/rkf45_rkfs.cpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/var/ode_solvers/rkf45.hpp b/var/ode_solvers/rkf45.hpp
index 54e799d..e31b25f 100644
--- a/var/ode_solvers/rkf45.hpp
+++ b/var/ode_solvers/rkf45.hpp
@@ -25,16 +25,16 @@ public:
 private:
   ODEfun f;
   int neqn;
-  int iflag, jflag, kflag;
-  int nfe,  ///< counter for function evaluations
-      kop,  ///< indicator for too many output points
-      init; ///< initialization completion indicator
+  int iflag, jflag{0}, kflag{0};
+  int nfe{0},  ///< counter for function evaluations
+      kop{0},  ///< indicator for too many output points
+      init{0}; ///< initialization completion indicator
   Eigen::MatrixXd F; // dimension 
   Eigen::VectorXd yp;
   double relerr;
   double abserr;
-  double h;
-  double savae, savre;
+  double h{0e0};
+  double savae{0e0}, savre{0e0};
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
   void *params{nullptr};
diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..3ec6e87 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -131,7 +131,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 0.2e0);
       }
     }
   }
@@ -243,7 +243,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
@@ -268,7 +268,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 0.2e0);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +299,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 0.2e0);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From cb052b67217739f7bfe09845d118117dcb32b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:35 +0000
Subject: [PATCH 24/75] fix: EKF with a linear beacon clock model set the
 a-priori troposphere of wrong slots; gain sized by columns, missing includes

---
 src/filters/ekf.hpp     | 5 ++---
 src/filters/filters.hpp | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/filters/ekf.hpp b/src/filters/ekf.hpp
index 9ae6df0..b4da33d 100644
--- a/src/filters/ekf.hpp
+++ b/src/filters/ekf.hpp
@@ -1,10 +1,9 @@
 #ifndef __EXTENDED_KALMAN_FILTER_HPP__
 #define __EXTENDED_KALMAN_FILTER_HPP__
 
+#include "datetime/dtcalendar.hpp"
 #include "eigen3/Eigen/Eigen"
-#ifdef DEBUG
 #include <cstdio>
-#endif
 
 namespace dso {
 
@@ -31,7 +30,7 @@ template <typename S> struct ExtendedKalmanFilter {
     t = t0;
     x = x0;
     P = P0;
-    K = Eigen::VectorXd(x0.cols());
+    K = Eigen::VectorXd::Zero(x0.rows());
   }
   
   const Eigen::VectorXd &state() const noexcept {return x;}
diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
-- 
2.43.0


From b3b985b9a23bb8e7d335dd9b9a93625a7037296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 25/75] fix: PolynomialModel copy assignment, moves and order 0
 own their coefficients; new coefficients are zero

---
 src/filters/models.hpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..4993878 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -1,6 +1,7 @@
 #ifndef __DEFINE_MATH_MODEL_TYPES__
 #define __DEFINE_MATH_MODEL_TYPES__
 
+#include <algorithm>
 #include <cstring>
 #include <datetime/dtcalendar.hpp>
 #include <type_traits>
@@ -9,7 +10,7 @@ namespace dso {
 
   template<typename XType>
   struct LinearModel {
-    XType xref;
+    XType xref{};
     double a{0e0},b{0e0};
 
     int order() const noexcept {return 1;}
@@ -19,13 +20,13 @@ namespace dso {
   template<typename XType>
   struct PolynomialModel {
     int _order;
-    XType xref;
+    XType xref{};
     double *cf{nullptr};
 
     void resize(int new_order) noexcept {
       if (new_order != _order) {
         delete[] cf;
-        cf = new double[new_order+1];
+        cf = new double[new_order+1]();
         _order = new_order;
       }
     }
@@ -39,31 +40,39 @@ namespace dso {
     }
 
     PolynomialModel(int porder) noexcept
-        : _order(porder), cf(new double[porder + 1]){};
+        : _order(porder), cf(new double[porder + 1]()){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf;}
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
-      std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
+      std::copy(p.cf, p.cf + _order + 1, cf);
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
-        std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        std::copy(p.cf, p.cf + _order + 1, cf);
+        xref = p.xref;
       }
       return *this;
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) {
+      p._order = -1;
+      p.cf = nullptr;
+    };
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p._order = -1;
+        p.cf = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0


From 069269263091ff3a2fd71d553f758755b685a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 26/75] fix: EOP tables copy every value, moves keep the
 capacity; C04 records must be consecutive; interpolation failure is reported

---
 src/eop.hpp                  | 73 ++++++++++++++++++++----------------
 src/iers/eop_interpolate.cpp | 11 +++---
 src/iers/parse_c04.cpp       | 25 ++++++++++--
 3 files changed, 69 insertions(+), 40 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..1c8f363 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -2,6 +2,8 @@
 #define __DSO__IERS_BULLTEIN_PARSERS_HPP__
 
 #include "datetime/dtcalendar.hpp"
+#include <algorithm>
+#include <cassert>
 #include <cstring>
 
 namespace dso {
@@ -35,6 +37,12 @@ private:
       *loda{nullptr},    ///< [sec/day], start index = 6
       *omegaa{nullptr};  ///< [?], start index = 7
 
+  /// Copy n elements of (array) src to dest; both can be null if n=0
+  static double *copy_array(double *dest, const double *src, int n) noexcept {
+    std::copy(src, src + n, dest);
+    return dest;
+  }
+
 public:
   int size() const noexcept { return sz; }
 
@@ -176,7 +184,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -189,21 +197,21 @@ public:
       if (sz != eopt.sz) {
         this->resize(eopt.sz);
       }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
-      xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
-      ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
-      ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
-      dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
-      dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
-      loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
-      omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+      mjda = copy_array(mem_arena, eopt.mem_arena, sz);
+      xpa = copy_array(mem_arena + 1 * capacity,
+                       eopt.mem_arena + 1 * eopt.capacity, sz);
+      ypa = copy_array(mem_arena + 2 * capacity,
+                       eopt.mem_arena + 2 * eopt.capacity, sz);
+      ut1a = copy_array(mem_arena + 3 * capacity,
+                       eopt.mem_arena + 3 * eopt.capacity, sz);
+      dxa = copy_array(mem_arena + 4 * capacity,
+                       eopt.mem_arena + 4 * eopt.capacity, sz);
+      dya = copy_array(mem_arena + 5 * capacity,
+                       eopt.mem_arena + 5 * eopt.capacity, sz);
+      loda = copy_array(mem_arena + 6 * capacity,
+                       eopt.mem_arena + 6 * eopt.capacity, sz);
+      omegaa = copy_array(mem_arena + 7 * capacity,
+                       eopt.mem_arena + 7 * eopt.capacity, sz);
     }
     return *this;
   }
@@ -212,8 +220,9 @@ public:
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
       // just move elements ...
+      delete[] mem_arena;
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
@@ -235,21 +244,21 @@ public:
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
       : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
-        xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
-        ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
-        ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
-        dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
-        dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
-        loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
-        omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+        mjda(copy_array(mem_arena, eopt.mem_arena, sz)),
+        xpa(copy_array(mem_arena + 1 * capacity,
+                       eopt.mem_arena + 1 * eopt.capacity, sz)),
+        ypa(copy_array(mem_arena + 2 * capacity,
+                       eopt.mem_arena + 2 * eopt.capacity, sz)),
+        ut1a(copy_array(mem_arena + 3 * capacity,
+                       eopt.mem_arena + 3 * eopt.capacity, sz)),
+        dxa(copy_array(mem_arena + 4 * capacity,
+                       eopt.mem_arena + 4 * eopt.capacity, sz)),
+        dya(copy_array(mem_arena + 5 * capacity,
+                       eopt.mem_arena + 5 * eopt.capacity, sz)),
+        loda(copy_array(mem_arena + 6 * capacity,
+                       eopt.mem_arena + 6 * eopt.capacity, sz)),
+        omegaa(copy_array(mem_arena + 7 * capacity,
+                       eopt.mem_arena + 7 * eopt.capacity, sz)) {}
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..1a96a3e 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -2,6 +2,8 @@
 #include "iers2010/iers2010.hpp"
 #include "datetime/utcdates.hpp"
 #include <datetime/dtfund.hpp>
+#include <cmath>
+#include <cstdio>
 
 int dso::EopLookUpTable::interpolate_lagrange(
     double tt_fmjd, dso::EopRecord &eopr, int order) const noexcept 
@@ -20,10 +22,6 @@ int dso::EopLookUpTable::interpolate_lagrange(
       iers2010::interp::lagint(mjd(), dy(), sz, tt_fmjd, eopr.dy, index, order);
   status += iers2010::interp::lagint(mjd(), lod(), sz, tt_fmjd, eopr.lod, index,
                                      order);
-  status += iers2010::interp::lagint(mjd(), dx(), sz, tt_fmjd, eopr.dx, index,
-                                     order);
-  status += iers2010::interp::lagint(mjd(), dy(), sz, tt_fmjd, eopr.dy, index,
-                                     order);
 
   if (status) {
     fprintf(stderr,
@@ -35,6 +33,8 @@ int dso::EopLookUpTable::interpolate_lagrange(
 
   // remember to assign date to the filled-in instance
   eopr.mjd = tt_fmjd;
+  // omega is not interpolated
+  eopr.omega = 0e0;
 
   return 0;
 }
@@ -43,7 +43,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order))
+    return 1;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index 9af4ea6..b4b4848 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -1,6 +1,7 @@
 #include "eop.hpp"
 #include "datetime/utcdates.hpp"
 #include <charconv>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <fstream>
@@ -45,6 +46,13 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
 
   // if needed, resize the EOP table, interval is [start.end)
   int days = end_mjd.as_underlying_type() - start_mjd.as_underlying_type();
+  if (days < 0) {
+    fprintf(stderr,
+            "[ERROR] Invalid date interval for EOP (C04) file %s (traceback: "
+            "%s)\n",
+            c04fn, __func__);
+    return 1;
+  }
   eoptable.resize(days);
 
   char line[MAX_LINE_CHARS];
@@ -59,10 +67,10 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
     if (*line && (*line != ' ' && *line != '#')) {
       // skip the data (YYYY MM DD) which is 12 chars length
       // get the mjd
-      start = next_num(line + 12);
       end = line + std::strlen(line);
+      start = (end - line > 12) ? next_num(line + 12) : end;
       auto fcr = std::from_chars(start, end, imjd);
-      if (fcr.ec != std::errc() || fcr.ptr == start) {
+      if (fcr.ec != std::errc() || fcr.ptr == start || *fcr.ptr != ' ') {
         fprintf(stderr,
                 "[ERROR] Failed resolving EOP line [%s]. EOP file is %s "
                 "(traceback: %s/err=A)\n",
@@ -76,6 +84,14 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
       // if the date is ok, collect data
       if (cmjd >= start_mjd && cmjd < end_mjd) {
         error = 0;
+        // one record per day, in chronological order
+        if (imjd != start_mjd.as_underlying_type() + sz) {
+          fprintf(stderr,
+                  "[ERROR] Missing, duplicate or unordered dates at EOP line "
+                  "[%s]. EOP file is %s (traceback: %s)\n",
+                  line, c04fn, __func__);
+          return 3;
+        }
         // do we need to transform the given UTC date to TAI?
         if (utc2tt) {
           dso::modified_julian_day tai_mjd;
@@ -90,7 +106,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
         for (int i = 0; i < 6; i++) {
           start = next_num(fcr.ptr);
           fcr = std::from_chars(start, end, data[i]);
-          if (fcr.ec != std::errc() || fcr.ptr == start) {
+          if (fcr.ec != std::errc() || fcr.ptr == start ||
+              !std::isfinite(data[i])) {
             // fprintf(stderr, "[ERROR] i=%d, line=\"%s\"\n", i, start);
             ++error;
           }
@@ -111,6 +128,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
         *(eoptable.lod(sz)) = data[3];
         *(eoptable.dx(sz)) = data[4];
         *(eoptable.dy(sz)) = data[5];
+        // not available in C04 files
+        *(eoptable.omega(sz)) = 0e0;
 
         ++sz;
       } else if (cmjd >= end_mjd) {
-- 
2.43.0


From 38cc2ac468d96252a7a70fdf21af57eaee79ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 27/75] fix: DORIS RINEX header: short lines, several
 scale-factor records, absent scale factors, impossible counts

A header line shorter than its label was compared (and parsed) against what
an earlier line left in the buffer, or never written; every SYS / SCALE FACTOR
record discarded the factors of the previous one, the form that applies to all
types was never accepted and a header without any was refused; counts were not
checked before being used (assert, reserve); and records that are absent left
their members unset.
---
 src/doris_rinex.hpp           | 22 +++++-----
 src/rinex/read_rnx_header.cpp | 75 +++++++++++++++++++++++------------
 2 files changed, 60 insertions(+), 37 deletions(-)

diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 63416cb..512b8af 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -108,27 +108,27 @@ std::string m_filename;
 /// The infput (file) stream; open at constructor
 std::ifstream m_stream;
 /// RINEX version
-float m_version;
+float m_version{0};
 /// Satellite name
-char m_satellite_name[60];
+char m_satellite_name[60] = {};
 /// COSPAR number
-char m_cospar_number[20];
+char m_cospar_number[20] = {};
 /// DORIS chain used (chain1 or chain2), exp. “CHAIN1”
-char m_rec_chain[20];
+char m_rec_chain[20] = {};
 /// DORIS instrument type; exp. “DGXX”
-char m_rec_type[20];
+char m_rec_type[20] = {};
 /// The software version used on board DORIS/DIODE, exp. “1.00”
-char m_rec_version[20];
+char m_rec_version[20] = {};
 /// The antenna type is “STAREC”
-char m_antenna_type[20];
+char m_antenna_type[20] = {};
 /// The antenna number is “DORIS”
-char m_antenna_number[20];
+char m_antenna_number[20] = {};
 /// Position of 2 GHz phase center, in the platform reference frame (Units:
 /// Meters, System: ITRS recommended)
-float m_approx_position[3];
+float m_approx_position[3] = {};
 /// The center of mass of the vehicle (for space borne receivers):
 /// CENTER OF MASS: XYZ, defined at the beginning of the mission.
-float m_center_mass[3];
+float m_center_mass[3] = {};
 /// A vector of ObservationCode contained in the RINEX file
 std::vector<ObservationCode> m_obs_codes;
 /// A vector of scale factors corresponding to m_obs_codes (aka they have
@@ -144,7 +144,7 @@ dso::datetime<dso::nanoseconds> m_time_ref_stat;
 /// date of the 2GHz phase measurement in microseconds. Positive if the 
 /// measurement of phase 400 MHz is performed after the measurement of phase 
 /// 2 GHz
-double m_l12_date_offset;
+double m_l12_date_offset{0e0};
 /// Epoch, code, and phase are corrected by applying the realtime-derived 
 /// receiver clock offset: 1=yes, 0=no; default: 0=no
 bool rcv_clock_offs_appl{false};
diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 04455f4..b4dc9ef 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -17,11 +17,24 @@
 /// str="                       ", from=22, return value=0
 /// str=" a                     ", from=22, return value=2
 int count_length_reverse(const char *str, int from) noexcept {
-  while (*(str + from) == ' ' && from >= 0)
+  while (from >= 0 && *(str + from) == ' ')
     --from;
   return ++from;
 }
 
+/// Read the next header line and fill it up with blanks to its full length, so
+/// that all (fixed) columns of a line shorter than that are blank.
+/// @param[out] line Buffer of size (at least) MAX_HEADER_CHARS
+static bool get_header_line(std::ifstream &fin, char *line) noexcept {
+  constexpr int max_chars = dso::DorisObsRinex::MAX_HEADER_CHARS;
+  if (!fin.getline(line, max_chars))
+    return false;
+  const int len = std::strlen(line);
+  std::memset(line + len, ' ', max_chars - 1 - len);
+  line[max_chars - 1] = '\0';
+  return true;
+}
+
 /// The instance's stream must be open and in good state. If it is not placed
 /// at the top of the file, it will be rewinded to the top.
 ///
@@ -44,24 +57,24 @@ int dso::DorisObsRinex::read_header() noexcept {
   int tmp_sz;
 
   // first line; RINEX VERSION / TYPE (get version, type and system)
-  m_stream.getline(line, MAX_HEADER_CHARS);
-  if (std::strncmp(line + 60, "RINEX VERSION / TYPE", 20))
+  if (!get_header_line(m_stream, line) ||
+      std::strncmp(line + 60, "RINEX VERSION / TYPE", 20))
     return 10;
   m_version = std::strtof(line, &str_end);
   if (str_end == line || (line[20] != 'O' || line[40] != 'D'))
     return 11;
 
   // second line; PGM / RUN BY / DATE
-  m_stream.getline(line, MAX_HEADER_CHARS);
-  if (std::strncmp(line + 60, "PGM / RUN BY / DATE", 19))
+  if (!get_header_line(m_stream, line) ||
+      std::strncmp(line + 60, "PGM / RUN BY / DATE", 19))
     return 20;
 
   // read on untill EOH
-  while (m_stream && m_stream.getline(line, MAX_HEADER_CHARS)) {
+  while (get_header_line(m_stream, line)) {
     if (!std::strncmp(line + 60, "SATELLITE NAME", 14)) {
       // SATELLITE NAME; get m_satellite_name (err. code 30)
       tmp_sz = count_length_reverse(line, 59);
-      if (!tmp_sz || tmp_sz >= 59)
+      if (!tmp_sz || tmp_sz > 59)
         return 30;
       std::memcpy(m_satellite_name, line, tmp_sz);
       m_satellite_name[tmp_sz] = '\0';
@@ -87,17 +100,17 @@ int dso::DorisObsRinex::read_header() noexcept {
       // REC # / TYPE / VERS; get m_rec_chain, m_rec_type and m_rec_version
       // (err. code 70)
       tmp_sz = count_length_reverse(line, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1 || tmp_sz > 19)
         return 71;
       std::memcpy(m_rec_chain, line, tmp_sz);
       m_rec_chain[tmp_sz] = '\0';
       tmp_sz = count_length_reverse(line + 20, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1 || tmp_sz > 19)
         return 72;
       std::memcpy(m_rec_type, line + 20, tmp_sz);
       m_rec_type[tmp_sz] = '\0';
       tmp_sz = count_length_reverse(line + 40, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1 || tmp_sz > 19)
         return 73;
       std::memcpy(m_rec_version, line + 40, tmp_sz);
       m_rec_version[tmp_sz] = '\0';
@@ -106,12 +119,12 @@ int dso::DorisObsRinex::read_header() noexcept {
       // ANT # / TYPE; get and validate m_antenna_number and m_antenna_type
       // (err. code 80)
       tmp_sz = count_length_reverse(line, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1 || tmp_sz > 19)
         return 81;
       std::memcpy(m_antenna_number, line, tmp_sz);
       m_antenna_number[tmp_sz] = '\0';
       tmp_sz = count_length_reverse(line + 20, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1 || tmp_sz > 19)
         return 82;
       std::memcpy(m_antenna_type, line + 20, tmp_sz);
       m_antenna_type[tmp_sz] = '\0';
@@ -155,7 +168,10 @@ int dso::DorisObsRinex::read_header() noexcept {
         errno = 0;
         return 112;
       }
-      assert(obs_types_num < 13);
+      // each line has room for (up to) 13 observation codes
+      if (obs_types_num < 1 || obs_types_num > 13) {
+        return 115;
+      }
       if (!m_obs_codes.empty())
         m_obs_codes.clear();
       for (int code = 0; code < obs_types_num; code++) {
@@ -167,7 +183,7 @@ int dso::DorisObsRinex::read_header() noexcept {
           int freq = 0;
           if (observationType_has_frequency(type)) {
             freq = std::strtol(s + 1, &end, 10);
-            if (errno || end == s + 1) {
+            if ((freq < 1 || freq > 2) || (errno || end == s + 1)) {
               errno = 0;
               return 113;
             }
@@ -177,6 +193,9 @@ int dso::DorisObsRinex::read_header() noexcept {
           return 114;
         }
       }
+      // scale factors have a one-to-one correspondance with m_obs_codes; they
+      // are all 1, unless specified otherwise by 'SYS / SCALE FACTOR' records
+      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
 
     } else if (!std::strncmp(line + 60, "TIME OF FIRST OBS", 17)) {
       // TIME OF FIRST OBS; get m_time_of_first_obs and validate time system
@@ -198,11 +217,6 @@ int dso::DorisObsRinex::read_header() noexcept {
       // SYS / SCALE FACTOR; get/fill m_obs_scale_factors
       if (*line != 'D')
         return 141;
-      if (!m_obs_scale_factors.empty())
-        m_obs_scale_factors.clear();
-      // create a vector of 1's with a size equal to m_obs_codes. the two
-      // vectors will have a one-to-one correspondance
-      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
       int factor = std::strtol(line + 2, &end, 10);
       if (!factor || (errno || end == line + 2)) {
         errno = 0;
@@ -210,14 +224,18 @@ int dso::DorisObsRinex::read_header() noexcept {
       }
       int num_obs;
       if (line[8] == line[9] && line[8] == ' ') { // blank means all ....
-        num_obs = m_obs_scale_factors.size();
+        num_obs = 0;
+        std::fill(m_obs_scale_factors.begin(), m_obs_scale_factors.end(),
+                  factor);
       } else {
         // scale factors can be defined for any number of ObservationCodes, in
         // the range [0, m_obs_codes.size()]
         num_obs = std::strtol(line + 8, &end, 10);
-        if ((!num_obs || num_obs > (int)m_obs_scale_factors.size()) ||
-            (errno || end == line + 8))
+        if ((num_obs < 1 || num_obs > (int)m_obs_scale_factors.size()) ||
+            (errno || end == line + 8)) {
+          errno = 0;
           return 143;
+        }
       }
       for (int code = 0; code < num_obs; code++) {
         char *s = line + 10 + code * 4;
@@ -228,7 +246,7 @@ int dso::DorisObsRinex::read_header() noexcept {
           int freq = 0;
           if (observationType_has_frequency(type)) {
             freq = std::strtol(s + 1, &end, 10);
-            if (!freq || (errno || end == s + 1)) {
+            if ((freq < 1 || freq > 2) || (errno || end == s + 1)) {
               errno = 0;
               return 144;
             }
@@ -262,8 +280,11 @@ int dso::DorisObsRinex::read_header() noexcept {
       errno = 0;
       // # OF STATIONS; reserve size for m_stations (err. code 160)
       num_stations = std::strtol(line, &end, 10);
-      if (!num_stations || (errno || end == line))
+      // no more than 999 stations, given the width of the internal numbers
+      if ((num_stations < 1 || num_stations > 999) || (errno || end == line)) {
+        errno = 0;
         return 161;
+      }
       //printf(">> Num stations: %d, capacity: %d\n", num_stations,
       //       (int)m_stations.capacity());
       if ((int)m_stations.capacity() < num_stations)
@@ -282,7 +303,8 @@ int dso::DorisObsRinex::read_header() noexcept {
       errno = 0;
       // # TIME REF STATIONS; reserve size for m_ref_stations (err. code 180)
       num_ref_stations = std::strtol(line, &end, 10);
-      if (!num_ref_stations || (errno || end == line)) {
+      if ((num_ref_stations < 1 || num_ref_stations > 999) ||
+          (errno || end == line)) {
         errno = 0;
         return 181;
       }
@@ -328,6 +350,7 @@ int dso::DorisObsRinex::read_header() noexcept {
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              19)) { // Code: 210
 
+      errno = 0;
       int rcv_clock_offs_appl_int = -99;
       rcv_clock_offs_appl_int = std::strtol(line, &end, 10);
       if ((errno || end == line) ||
@@ -353,7 +376,7 @@ int dso::DorisObsRinex::read_header() noexcept {
     return -2;
 
   // final checks on collected info
-  if (m_obs_codes.size() != m_obs_scale_factors.size() ||
+  if (m_obs_codes.empty() || m_obs_codes.size() != m_obs_scale_factors.size() ||
       obs_types_num != static_cast<int>(m_obs_codes.size()))
     return -3;
   if (num_stations != static_cast<int>(m_stations.size()) ||
-- 
2.43.0


From 7a2a49d6fbf46d86f8aa6704f834e58c6c292611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 28/75] fix: DORIS RINEX data blocks: truncated blocks, short
 lines, missing values, optional clock offset

The reads of the data lines were not checked, so a block cut by the end of the
file was returned with the contents of the last line read (a static buffer);
columns beyond the end of a line were taken from that buffer as well. Missing
values were divided by the scale factor, hence not recognizable any more;
numbers followed by anything else were accepted; an epoch without the (optional)
clock offset was refused; offsets were truncated, not rounded, to nanoseconds.
---
 src/doris_rinex.hpp                  |  8 ++--
 src/rinex/doris_rinex.cpp            | 65 ++++++++++++++++++++++------
 src/rinex/read_rnx_header.cpp        |  4 +-
 src/rinex/rnx_datablock_iterator.cpp |  2 +-
 4 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 512b8af..058ccbc 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -4,6 +4,7 @@
 #include "doris_system_info.hpp"
 #include "datetime/dtcalendar.hpp"
 #include "filters/models.hpp"
+#include <cmath>
 #include <datetime/dtfund.hpp>
 #include <fstream>
 #include <vector>
@@ -47,7 +48,7 @@ struct RinexDataRecordHeader {
   /// @brief Apply the recorded (in RINEX) clock offset to time m_epoch
   void apply_clock_offset() noexcept {
     dso::nanoseconds off_nsec {static_cast<dso::nanoseconds::underlying_type>( 
-      m_clock_offset * dso::nanoseconds::sec_factor<double>())};
+      std::round(m_clock_offset * dso::nanoseconds::sec_factor<double>()))};
     m_epoch.add_seconds(off_nsec);
   }
 }; // RinexDataRecordHeader
@@ -306,7 +307,7 @@ public:
   dso::nanoseconds l21_date_offset() const noexcept {
     // note that the value extracted from the RINEX file is in microsecond
     // transform it to nanoseconds (integer)
-    const double offset_nanoseconds = m_l12_date_offset * 1e3;
+    const double offset_nanoseconds = std::round(m_l12_date_offset * 1e3);
     return dso::nanoseconds(
         static_cast<dso::nanoseconds::underlying_type>(offset_nanoseconds));
   }
@@ -397,7 +398,8 @@ struct RinexDataBlockIterator {
                               RECEIVER_CLOCK_OFFSET_MISSING) *
           cheader.m_clock_offset;
       dso::nanoseconds noff(
-          static_cast<dso::nanoseconds::underlying_type>(clock_offset * 1e9));
+          static_cast<dso::nanoseconds::underlying_type>(
+              std::round(clock_offset * 1e9)));
       t.add_seconds(noff);
     }
     return t;
diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index ffcd2e2..fb85069 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -2,11 +2,20 @@
 #include "datetime/datetime_read.hpp"
 #include <algorithm>
 #include <cctype>
+#include <cmath>
+#include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
 #include "datetime/datetime_write.hpp"
 #endif
 
+/// Check if a (null-terminated) string holds nothing but white spaces
+static bool is_blank(const char *str) noexcept {
+  while (std::isspace(static_cast<unsigned char>(*str)))
+    ++str;
+  return !*str;
+}
+
 /// The constructor will try to:
 /// 1. open the input file
 /// 2. parse the header
@@ -132,7 +141,10 @@ void dso::DorisObsRinex::read() {
 int dso::DorisObsRinex::read_data_block(
     dso::RinexDataRecordHeader &hdr,
     std::vector<BeaconObservations> &obsvec) noexcept {
-  static char line[MAX_RECORD_CHARS];
+  // a data line holds the station number and (up to) 5 observation values
+  constexpr int line_chars = 3 + 5 * 16;
+  char line[MAX_RECORD_CHARS];
+  int len = 0;
   if (!obsvec.empty())
     obsvec.clear();
 
@@ -153,7 +165,12 @@ int dso::DorisObsRinex::read_data_block(
     while (curobs < (int)m_obs_codes.size()) {
       // should we change/get the next line ?
       if (!(curobs % 5)) {
-        m_stream.getline(line, MAX_RECORD_CHARS);
+        if (!m_stream.getline(line, MAX_RECORD_CHARS))
+          return 3;
+        // columns not written in the line are blank
+        len = std::strlen(line);
+        if (len < line_chars)
+          std::memset(line + len, ' ', line_chars - len);
         // if this is the first data line for the beacon, get its code
         if (!curline) {
           if ((*line) != 'D')
@@ -163,7 +180,8 @@ int dso::DorisObsRinex::read_data_block(
         ++curline;
       }
       // collect measurements ...
-      std::memcpy(buf, line + 3 + (curobs % 5) * 16, 14);
+      const int field = 3 + (curobs % 5) * 16;
+      std::memcpy(buf, line + field, 14);
       // check if value is ommited (an ommited value is either left blank, or
       // is recorded as 0.0)
       bool buf_is_empty = true;
@@ -176,11 +194,17 @@ int dso::DorisObsRinex::read_data_block(
       }
       char flagm1 = line[3 + (curobs % 5) * 16 + 14];
       char flagm2 = line[3 + (curobs % 5) * 16 + 15];
-      val = (buf_is_empty) ? OBSERVATION_VALUE_MISSING : std::strtod(buf, &end);
-      if (val == 0e0 || end == buf) {
+      if (buf_is_empty) {
         val = OBSERVATION_VALUE_MISSING;
-        if (end == buf)
+      } else {
+        val = std::strtod(buf, &end);
+        // the field should hold (nothing but) a number, and not be cut short
+        if (end == buf || !std::isfinite(val) || len < field + 14)
           return 2;
+        if (!is_blank(end))
+          return 2;
+        if (val == 0e0)
+          val = OBSERVATION_VALUE_MISSING;
       }
       // push value to the current BeaconObservations instance (in-place)
       // WAIT! check if we have a scale factor for the observable (note that
@@ -189,7 +213,8 @@ int dso::DorisObsRinex::read_data_block(
       // index of the observable. If no scale factor for the observable exists,
       // then the m_obs_scale_factors should have an '1' in the corresponding
       // index
-      val /= m_obs_scale_factors[curobs];
+      if (val != OBSERVATION_VALUE_MISSING)
+        val /= m_obs_scale_factors[curobs];
       obsvec_it->m_values.emplace_back(val, flagm1, flagm2);
       ++curobs;
     }
@@ -237,10 +262,17 @@ int dso::DorisObsRinex::read_data_block(
 ///   +-------------------------+-----------+------------------------------
 ///
 int dso::DorisObsRinex::resolve_data_epoch(
-    const char *line, dso::RinexDataRecordHeader &hdr) const noexcept {
-  if (*line != '>')
+    const char *rline, dso::RinexDataRecordHeader &hdr) const noexcept {
+  if (*rline != '>')
     return 1; // must start with '>' character
 
+  // columns not written in the line are blank
+  char line[64];
+  const int len = std::min(std::strlen(rline), sizeof line - 1);
+  std::memset(line, ' ', sizeof line - 1);
+  std::memcpy(line, rline, len);
+  line[sizeof line - 1] = '\0';
+
   char *end;
   int status = 0;
 
@@ -263,7 +295,7 @@ int dso::DorisObsRinex::resolve_data_epoch(
   std::memcpy(tbuf, line + 31, 3);
   // hdr.m_flag = static_cast<int_fast8_t>(std::strtol(line + 31, &end, 10));
   hdr.m_flag = static_cast<int_fast8_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end == tbuf || !is_blank(end) || errno || hdr.m_flag < 0) {
     errno = 0;
     status = status ? status : 3;
   }
@@ -272,7 +304,7 @@ int dso::DorisObsRinex::resolve_data_epoch(
   // hdr.m_num_stations =
   //     static_cast<int_fast16_t>(std::strtol(line + 34, &end, 10));
   hdr.m_num_stations = static_cast<int_fast16_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end == tbuf || !is_blank(end) || errno || hdr.m_num_stations < 0) {
     errno = 0;
     status = status ? status : 4;
   }
@@ -285,8 +317,12 @@ int dso::DorisObsRinex::resolve_data_epoch(
     }
   }
   if (has_clock_offset) {
-    hdr.m_clock_offset = std::strtod(line + 43, &end);
-    if (errno || end == line + 43) {
+    char cbuf[14] = {'\0'};
+    std::memcpy(cbuf, line + 43, 13);
+    hdr.m_clock_offset = std::strtod(cbuf, &end);
+    // (the field, i.e. F13.9, has no more than 4 integer digits)
+    if (errno || end == cbuf || !is_blank(end) ||
+        !(std::abs(hdr.m_clock_offset) < 1e4)) {
       errno = 0;
       status = status ? status : 5;
     }
@@ -294,8 +330,9 @@ int dso::DorisObsRinex::resolve_data_epoch(
     hdr.m_clock_offset = RECEIVER_CLOCK_OFFSET_MISSING;
   }
 
+  // the flag goes with the (optional) clock offset
   hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
-  if (errno || end == line + 56) {
+  if (errno || (has_clock_offset && end == line + 56)) {
     errno = 0;
     status = status ? status : 6;
   }
diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index b4dc9ef..ca6b3c1 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -1,7 +1,7 @@
 #include "datetime/datetime_read.hpp"
 #include "doris_rinex.hpp"
 #include <algorithm>
-#include <cassert>
+#include <cmath>
 #include <cstring>
 
 /// Max header lines.
@@ -271,7 +271,7 @@ int dso::DorisObsRinex::read_header() noexcept {
       if (*line != 'D')
         return 151;
       m_l12_date_offset = std::strtod(line + 3, &end);
-      if (errno || end == line + 3) {
+      if (errno || end == line + 3 || !(std::abs(m_l12_date_offset) < 1e12)) {
         errno = 0;
         return 152;
       }
diff --git a/src/rinex/rnx_datablock_iterator.cpp b/src/rinex/rnx_datablock_iterator.cpp
index 7ad1511..d6a60dc 100644
--- a/src/rinex/rnx_datablock_iterator.cpp
+++ b/src/rinex/rnx_datablock_iterator.cpp
@@ -38,7 +38,7 @@ dso::datetime<dso::nanoseconds> dso::RinexDataBlockIterator::corrected_l1_epoch(
   if (!rnx->receiver_clock_offsets_applied()) [[likely]] {
     // clock offset in nanoseconds (from seconds)
     dso::nanoseconds noff(static_cast<dso::nanoseconds::underlying_type>(
-        cheader.m_clock_offset * 1e9));
+        std::round(cheader.m_clock_offset * 1e9)));
     t.add_seconds(noff);
   }
 
-- 
2.43.0


From 9be0aa3a82663dd8d1d6402edaab2bb6d9be6e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 29/75] fix: beacon table: long file names, short or blank
 lines, read failures

The file name was copied to a fixed-size buffer; a line shorter than its
columns was resolved from what the previous one left in the buffer; errno was
tested without having been cleared, and a line that could not be read ended the
table silently.
---
 src/beacon_tbl.hpp            |  5 +++--
 src/beacon_tbl/beacon_tbl.cpp | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/beacon_tbl.hpp b/src/beacon_tbl.hpp
index f4bd343..747f761 100644
--- a/src/beacon_tbl.hpp
+++ b/src/beacon_tbl.hpp
@@ -4,6 +4,7 @@
 #include "datetime/datetime_read.hpp"
 #include <cstring>
 #include <fstream>
+#include <string>
 #include <vector>
 
 namespace dso {
@@ -26,10 +27,10 @@ struct BeaconInformationTableEntry {
 };
 
 class BeaconInformationTable {
-  char fn_[256];
+  std::string fn_;
 
 public:
-  BeaconInformationTable(const char *fn) noexcept { std::strcpy(fn_, fn); }
+  BeaconInformationTable(const char *fn) : fn_(fn) {}
   BeaconInformationTable(const BeaconInformationTable &) = delete;
   BeaconInformationTable(BeaconInformationTable &&) = delete;
   BeaconInformationTable &operator=(const BeaconInformationTable &) = delete;
diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 100727b..2f4b484 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -6,8 +6,8 @@ dso::BeaconInformationTable::load_to_memmory(
     const dso::datetime<dso::nanoseconds> &t) {
   std::ifstream fin(fn_);
   if (!fin.is_open()) {
-    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n", fn_,
-            __func__);
+    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n",
+            fn_.c_str(), __func__);
     throw std::runtime_error("Open file error");
   }
 
@@ -19,6 +19,17 @@ dso::BeaconInformationTable::load_to_memmory(
 
   char *end;
   while (fin.getline(line, 256)) {
+    if (!*line)
+      continue;
+    // mnemonic, from/to dates and height occupy (at least) 46 characters
+    if (std::strlen(line) < 46) {
+      fprintf(stderr,
+              "ERROR. Failed resolving beacon information from line \'%s\' "
+              "(traceback: %s)\n",
+              line, __func__);
+      throw std::runtime_error("Parse file error");
+    }
+    errno = 0;
     std::memcpy(name, line, 4 * sizeof(char));
     const auto from = dso::strptime_ymd_hms<dso::nanoseconds>(line + 5, &end);
     const auto to = dso::strptime_ymd_hms<dso::nanoseconds>(line + 24, &end);
@@ -35,5 +46,12 @@ dso::BeaconInformationTable::load_to_memmory(
     }
   }
 
+  // stopped for any reason other than the end of file ?
+  if (!fin.eof()) {
+    fprintf(stderr, "ERROR. Failed reading lines from file %s (traceback: %s)\n",
+            fn_.c_str(), __func__);
+    throw std::runtime_error("Parse file error");
+  }
+
   return vec;
 }
\ No newline at end of file
-- 
2.43.0


From 1a255aad1af5b7a58b10a4556b559b743fe5e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 30/75] fix: beacon stations: unterminated names, missing type,
 dangling phase centers, errno

set_from_rinex_line tested errno without clearing it and took the shift factor
for the beacon type if the latter is blank; to_str read past names that fill
their field; iono_free_phase_center kept expressions of destroyed temporaries
and terminated the process for a beacon of unknown antenna type.
---
 src/doris/doris_system_info.cpp | 11 ++++++-----
 src/doris_system_info.hpp       |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/doris/doris_system_info.cpp b/src/doris/doris_system_info.cpp
index f1e9633..7661624 100644
--- a/src/doris/doris_system_info.cpp
+++ b/src/doris/doris_system_info.cpp
@@ -103,11 +103,12 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
   std::memcpy(m_station_name, line + 10, sizeof m_station_name);
   std::memcpy(m_station_domes, line + 40, sizeof m_station_domes);
   char *end;
-  m_type = std::strtol(line + 50, &end, 10);
-  if (errno || end == line + 50) {
-    errno = 0;
+  // a single digit (do not read on into the shift factor, if missing)
+  const char c = (line[50] == ' ') ? line[51] : line[50];
+  if (c < '0' || c > '9')
     return 2;
-  }
+  m_type = c - '0';
+  errno = 0;
   m_shift_factor = std::strtol(line + 52, &end, 10);
   if (errno || end == line + 52) {
     errno = 0;
@@ -126,7 +127,7 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
 }
 
 char *dso::BeaconStation::to_str(char *buffer) const noexcept {
-  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%s)", m_internal_code, m_station_id,
+  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%.29s)", m_internal_code, m_station_id,
                m_station_domes, m_station_name);
   return buffer;
 }
diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 7f0dbec..d1f3ad6 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -159,16 +159,17 @@ struct BeaconStation {
   ///        Iono-Free PC = Antenna RP + iono_free_phase_center()
   /// @see Lemoine etal, 2016, "Precise orbit determination and station
   ///        position estimation using DORIS RINEX data", section 2.5.7
-  Eigen::Matrix<double, 3, 1> iono_free_phase_center() const noexcept {
+  /// @throw std::runtime_error if the antenna type is unknown, see type()
+  Eigen::Matrix<double, 3, 1> iono_free_phase_center() const {
     // the 2GHz Phase center in [mm]
-    const auto r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
                             (type() == GroundAntennaType::Alcatel) +
                         AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *
                             (type() == GroundAntennaType::Starec_B ||
                              type() == GroundAntennaType::Starec_C);
 
     // the 400MHz Phase center in [mm]
-    const auto r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
                               (type() == GroundAntennaType::Alcatel) +
                           AntennaOffset<GroundAntennaType::Starec_B, 2>::pco() *
                               (type() == GroundAntennaType::Starec_B ||
-- 
2.43.0


From 23493d3701aee795711c109595edbb2df229e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 31/75] fix: Doppler counts: compare 3-character beacon
 numbers, use the indexes of L1 and L2

The (not null-terminated) beacon numbers were compared and printed as strings,
the first two observation types were taken for L1 and L2 whatever they are, and
differences with missing values were reported.
---
 src/doris/extract_doppler_count.cpp | 52 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 598f730..33f1b04 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -12,7 +12,8 @@ struct BeaconObservationData {
   dso::datetime<dso::nanoseconds> t;
 };
 
-int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
+int compute_ndop(int l1_idx, int l2_idx,
+    const std::vector<dso::BeaconObservations> &obsvec,
     const dso::datetime<dso::nanoseconds> &t,
     std::vector<BeaconObservationData> &data) noexcept {
   const char *newid = nullptr;
@@ -21,16 +22,26 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
 
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     if (it != data.end()) {
-      double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
-      double dl2 = newobs.m_values[1].m_value - it->obs.m_values[1].m_value;
+      const double l1 = newobs.m_values[l1_idx].m_value;
+      const double l2 = newobs.m_values[l2_idx].m_value;
+      const double pl1 = it->obs.m_values[l1_idx].m_value;
+      const double pl2 = it->obs.m_values[l2_idx].m_value;
+      // no counts if any of the values is missing
+      if (l1 == dso::OBSERVATION_VALUE_MISSING ||
+          l2 == dso::OBSERVATION_VALUE_MISSING ||
+          pl1 == dso::OBSERVATION_VALUE_MISSING ||
+          pl2 == dso::OBSERVATION_VALUE_MISSING)
+        continue;
+      double dl1 = l1 - pl1;
+      double dl2 = l2 - pl2;
       auto tdsec = t.delta_sec(it->t);
       double dsec = static_cast<double>(tdsec.as_underlying_type()) /
                     dso::nanoseconds::sec_factor<double>();
 
-      printf("%s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
+      printf("%.3s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
     }
   }
 
@@ -47,7 +58,7 @@ int update(const std::vector<dso::BeaconObservations> &obsvec,
     newid = newobs.m_beacon_id;
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     // if not, append
     if (it == data.end()) {
@@ -66,27 +77,24 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
 
   long parsed_blocks = 0;
 
-  /* find indexes of L1 and L2 in this RINEX's observation codes vector
-  auto l1_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 1}); if (l1_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L1 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
-  }
-  auto l2_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 2}); if (l2_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L2 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
+  // find indexes of L1 and L2 in this RINEX's observation codes vector
+  const int l1_idx =
+      get_observation_code_index(ObservationCode{ObservationType::phase, 1});
+  const int l2_idx =
+      get_observation_code_index(ObservationCode{ObservationType::phase, 2});
+  if (l1_idx < 0 || l2_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] Failed to find L1 and L2 in RINEX\'s observation types "
+            "vector! (traceback: %s)\n",
+            __func__);
+    return 4;
   }
 
-  // index of L1 and L2 in the m_obs_codes vector
-  int l1_idx = std::distance(m_obs_codes.cbegin(), l1_ptr);
-  int l2_idx = std::distance(m_obs_codes.cbegin(), l2_ptr);
-  */
-
   // vector of beacon observations; last observation extracted for each beacon
   std::vector<BeaconObservationData> latest_data;
   latest_data.reserve(m_stations.size());
 
+  m_stream.clear();
   m_stream.seekg(m_end_of_head);
   char line[MAX_RECORD_CHARS];
   RinexDataRecordHeader hdr;
@@ -135,7 +143,7 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
 
     // compute Doppler counts for each beacon (if a previous observation is
     // preseent)
-    if (compute_ndop(obsvec, hdr.m_epoch, latest_data)) {
+    if (compute_ndop(l1_idx, l2_idx, obsvec, hdr.m_epoch, latest_data)) {
       fprintf(stderr, "[ERROR] Failed computing ndop (traceback: %s)\n",
               __func__);
       return 5;
-- 
2.43.0


From e66bdc08227bbe023724ddd7df0fe9b7274e5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 32/75] fix: relative frequency offset fit: leftover samples,
 window of one sample, missing F values

The values left over at the end of a file were summed past the end of their
buffer, counted one short (dividing by zero for a window of two) and given a
time in other units than the rest; the start of the window was never set if each
value is used; missing F values, or an observation type list without F, were
used all the same; the number of points was only guessed; the solution referred
to destroyed temporaries; failures to open a file terminated the process.
---
 src/doris/fit_rfo.cpp |  16 +++++
 src/rinex/fit_rfo.cpp | 141 +++++++++++++++++++++++-------------------
 2 files changed, 95 insertions(+), 62 deletions(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 58be2b4..5964377 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -126,6 +126,14 @@ int get_starting_rfo(const char *rnx_fn, double &rfo,
     return 1;
   }
 
+  if (obsvec.empty() ||
+      obsvec[0].m_values[findex].m_value == OBSERVATION_VALUE_MISSING) {
+    fprintf(stderr,
+            "[ERROR] No F value in the first data block! (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
+
   // for a single block, all F measurements/values should be the same!
   rfo = obsvec[0].m_values[findex].m_value;
 
@@ -184,6 +192,11 @@ int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
       return 1;
     }
 
+    // nothing to update with, if there are no observations or F is missing
+    if (obsvec.empty() ||
+        obsvec[0].m_values[findex].m_value == OBSERVATION_VALUE_MISSING)
+      continue;
+
     // for a single block, all F measurements/values should be the same!
     rfo = obsvec[0].m_values[findex].m_value;
     for (const auto &bobs : obsvec) {
@@ -221,6 +234,9 @@ int dso::fit_relative_frequency_offset(char **rinex_fns, int num_rinex,
   long rfo_collected = 0;
   int error = 0;
 
+  if (num_rinex < 1)
+    return 1;
+
   // let's get an initial estimate for RFO using the first measurement in the
   // first RINEX file; also get reference time for kalman
   dso::datetime<dso::nanoseconds> reft;
diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 7879a49..46b478b 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -5,6 +5,40 @@
 
 typedef dso::datetime<dso::nanoseconds> Datetime;
 
+namespace {
+/// Add a data point to the system, i.e. the mean of the values in [begin,end)
+/// at the midpoint of the interval [t0, tend].
+void add_data_point(std::vector<double>::const_iterator begin,
+                    std::vector<double>::const_iterator end,
+                    const Datetime &t0, const Datetime &tend,
+                    const Datetime &tref,
+                    const dso::PolynomialModel<Datetime> &fit,
+                    Eigen::VectorXd &b, Eigen::MatrixXd &A, unsigned &idx) {
+  // the number of data points is only estimated
+  if (idx >= b.rows()) {
+    b.conservativeResize(2 * idx + 1);
+    A.conservativeResize(2 * idx + 1, Eigen::NoChange);
+  }
+  b(idx) = std::reduce(begin, end, 0e0) / std::distance(begin, end);
+
+  // midpoint in time, between t0 and tend
+  const auto dsec = tend.delta_sec(t0);
+  const dso::nanoseconds half =
+      dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
+  Datetime t = t0;
+  t.add_seconds(half);
+
+  // difference in time (aka from tref)
+  const double dt = fit.deltax(t, tref);
+  A(idx, 0) = 1e0;
+  for (int i = 0; i < fit.order(); i++)
+    A(idx, i + 1) = A(idx, i) * dt;
+
+  // increase matrix index
+  ++idx;
+}
+} // unnamed namespace
+
 // Reminder: in the RINEX files, the F value (aka relative frequency offset for
 // the receiver's oscillator) is given in units: 1e-11
 
@@ -17,11 +51,8 @@ int parse_rinex_rfos(const char *fnrnx,
     Eigen::MatrixXd &A,
     unsigned &idx,
     const Datetime &start,
-    const Datetime &end) noexcept {
+    const Datetime &end) {
 
-  // polynomial order
-  const int poly_order = fit.order();
-  
   // Construct the instance
   dso::DorisObsRinex rnx(fnrnx);
 
@@ -32,6 +63,13 @@ int parse_rinex_rfos(const char *fnrnx,
   // index of the F measurement (relative frequency offset)
   const int f_idx = rnx.get_observation_code_index(
       dso::ObservationCode{dso::ObservationType::frequency_offset});
+  if (f_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] Failed to find observation type F in list of RINEX "
+            "observables, RINEX %s (traceback: %s)\n",
+            fnrnx, __func__);
+    return 1;
+  }
 
   // get an iterator to the RINEXs data blocks
   dso::RinexDataBlockIterator it(&rnx);
@@ -56,35 +94,23 @@ int parse_rinex_rfos(const char *fnrnx,
       // should have the same F value
       auto beaconobs = it.cblock.begin();
 
+      // nothing to collect if there are no observations, or F is missing
+      if (beaconobs == it.cblock.end() ||
+          beaconobs->m_values[f_idx].m_value == dso::OBSERVATION_VALUE_MISSING)
+        continue;
+
       // temporarily store value at buffer
       fs[cval % every] = beaconobs->m_values[f_idx].m_value;
 
       // store current date
       tend = (use_tai) ? tl1 : tproper;
-      
-      // check if we reached every values
-      if (!((cval + 1) % every)) {
-        // we did, compute data points and add to matrices
-        b(idx) = std::reduce(fs.begin(), fs.end(), 0e0) / every;
-
-        // midpoint in time, between t0 and tend
-        const auto dsec = tend.delta_sec(t0);
-        const dso::nanoseconds half =
-            dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-        dso::datetime<dso::nanoseconds> t = t0;
-        t.add_seconds(half);
-
-        // difference in time (aka from tref)
-        A(idx, 0) = 1e0;
-        const double dt = fit.deltax(t,tref);// t.delta_date(tref).as_mjd();
-        A(idx, 1) = dt;
-        for (int i = 1; i < poly_order; i++)
-          A(idx, i+1) = A(idx, i) * dt;
-        // increase matrix index
-        ++idx;
-      } else if (!(cval % every)) {
+      if (!(cval % every))
         t0 = tend;
-      }
+      
+      // check if we reached every values; if we did, compute data point and
+      // add to matrices
+      if (!((cval + 1) % every))
+        add_data_point(fs.begin(), fs.end(), t0, tend, tref, fit, b, A, idx);
 
       ++cval;
     } // current block within date range
@@ -102,28 +128,9 @@ int parse_rinex_rfos(const char *fnrnx,
     return 1;
   }
 
-  --cval;
   // add any reamaining data in the buffer
-  if ((cval % every) != every - 1) {
-    const int j = cval % every;
-    b(idx) = std::reduce(fs.begin(), fs.end()+j, 0e0) / j;
-    
-    const auto dsec = tend.delta_sec(t0);
-    const dso::nanoseconds half =
-        dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-    dso::datetime<dso::nanoseconds> t = t0;
-    t.add_seconds(half);
-    
-    // difference in time (aka from tref)
-    A(idx,0) = 1e0;
-    const double dt = t.delta_date(tref).as_mjd();
-    A(idx,1) = dt;
-    for (int i = 1; i < poly_order; i++)
-      A(idx, i + 1) = A(idx, i) * dt;
-
-    // increase matrix index
-    ++idx;
-  }
+  if (const int j = cval % every; j)
+    add_data_point(fs.begin(), fs.begin() + j, t0, tend, tref, fit, b, A, idx);
 
   return 0;
 }
@@ -136,7 +143,12 @@ int dso::fit_relative_frequency_offset(
     const Datetime &start,
     const Datetime &end) noexcept 
 {
-  assert(fit.order() >= 1);
+  if (fit.order() < 1 || every < 1) {
+    fprintf(stderr,
+            "[ERROR] Invalid model order or averaging window (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
 
   // Initial guess for the number of RFO values to be read for every RINEX
   // RINEX are (most probably) daily, hence they span 86400 seconds. For every
@@ -147,17 +159,9 @@ int dso::fit_relative_frequency_offset(
   // of 8640 * 2 / every F data points per day (aka per RINEX)
   const int NDay = std::ceil(num_vals_daily / every);
 
-  // how many days do we want to use data from? If start and end are not set, 
-  // then just count the number of RINEX files
-  float num_days = fns.size();
-  if (start != dso::datetime<dso::nanoseconds>::min() &&
-      end != dso::datetime<dso::nanoseconds>::max()) {
-    num_days = end.as_mjd() - start.as_mjd();
-  }
-
   // So, this is our educated guess about the number of points we will be 
-  // using, for the whole time-span
-  long num_pts = NDay * num_days + 10 /* just to be sure ... */;
+  // using, for the whole time-span (if proven wrong, the matrices will grow)
+  long num_pts = NDay * (long)fns.size() + 10 /* just to be sure ... */;
 
   // how many columns in design matrix ?
   const int M = fit.order() + 1;
@@ -171,8 +175,14 @@ int dso::fit_relative_frequency_offset(
   unsigned index = 0;
   dso::datetime<dso::nanoseconds> tref = dso::datetime<dso::nanoseconds>::min();
   for (const auto sptr : fns) {
-    if (parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
-                         start, end)) {
+    int error = 1;
+    try {
+      error = parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
+                               start, end);
+    } catch (std::exception &e) {
+      fprintf(stderr, "%s (traceback: %s)\n", e.what(), __func__);
+    }
+    if (error) {
       fprintf(stderr,
               "[ERROR] Failed fitting Receiver Frequency Offset values! failed "
               "at RINEX file %s (traceback: %s)\n",
@@ -183,13 +193,20 @@ int dso::fit_relative_frequency_offset(
 
   // OK! all RINEX files parsed. We now need to resize the matrices, given
   // their true sizes
+  if (index < static_cast<unsigned>(M)) {
+    fprintf(stderr,
+            "[ERROR] Too few Receiver Frequency Offset values (%u) to fit %d "
+            "coefficients (traceback: %s)\n",
+            index, M, __func__);
+    return 2;
+  }
   b.conservativeResize(index, Eigen::NoChange);
   A.conservativeResize(index, Eigen::NoChange);
 
   printf("Solving LS with b=%ldx%ld and A=%ldx%ld\n", b.rows(), b.cols(), A.rows(), A.cols());
 
   // Solve the LS problem
-  const auto y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
+  const Eigen::VectorXd y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
 
   // assign to the (returned) model
   fit.xref = tref;
-- 
2.43.0


From 1bc80addc2c367110a1f5878d9c0a24798c3a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 33/75] fix: get_starting_rfo may throw (its caller catches),
 so it cannot be noexcept

---
 src/doris/fit_rfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 5964377..fd8b597 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -85,7 +85,7 @@ struct LinearKalman {
 };
 
 int get_starting_rfo(const char *rnx_fn, double &rfo,
-                     dso::datetime<dso::nanoseconds> &reft) noexcept {
+                     dso::datetime<dso::nanoseconds> &reft) {
   using namespace dso;
 
   DorisObsRinex rnx(rnx_fn); // may throw ....
-- 
2.43.0


From 2ce9881bd6e7c0ca42a97082e903701bd7b6ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 34/75] fix: antenna PCV: 90 degrees is inside the table,
 out-of-bounds angles are flagged

---
 src/antenna_pcv.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index d3e2c0a..3ff178b 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -1,8 +1,10 @@
 #ifndef __DORIS_ANTENNA_PCV_HPP__
 #define __DORIS_ANTENNA_PCV_HPP__
 
-#include "doris_system_info.hpp"
 #include "geodesy/units.hpp"
+#include <cassert>
+#include <cmath>
+#include <cstdint>
 #include "eigen3/Eigen/Eigen"
 
 namespace dso {
@@ -48,11 +50,14 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle = dso::rad2deg<double>(zenith);
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
-      return 0e0;
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
+      return 0e0;
     }
+    // the last interval includes the horizon, i.e. an angle of 90 [deg]
     int index = std::floor(angle / 5e0);
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -71,7 +76,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 
@@ -101,11 +106,14 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle(dso::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
+    // the last interval includes the horizon, i.e. an angle of 90 [deg]
     int index = std::floor(angle / 5e0);
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -124,7 +132,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 };
@@ -153,11 +161,14 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle(dso::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
+    // the last interval includes the horizon, i.e. an angle of 90 [deg]
     int index = std::floor(angle / 5e0);
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -176,7 +187,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 };
-- 
2.43.0


From fc6bdfdece62d3b715abb2d165f8a4c00f8aae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 35/75] fix: NRLMSISE-00: no hidden call history, published
 branches at 32.5 km, switches and non-air masses

Function static caches (uninitialised, shared between objects) become members;
tn3[0] follows tn2[3] below 32.5 km (it was never set); the altitude 32.5 km
itself, a switched off latitude term, switched off mixing and mass numbers
other than 48 follow the published model; density 39 typo.
---
 src/atmosphere/nrlmsise00.hpp        |  6 ++++
 src/atmosphere/nrlmsise00_glob7s.cpp | 31 +++-----------------
 src/atmosphere/nrlmsise00_globe7.cpp | 44 ++++++----------------------
 src/atmosphere/nrlmsise00_gtd7.cpp   |  9 ++++--
 src/atmosphere/nrlmsise00_gts7.cpp   |  2 ++
 5 files changed, 27 insertions(+), 65 deletions(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 178f6c9..744e185 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <geodesy/ellipsoid.hpp>
 #include "eigen3/Eigen/Eigen"
 #ifdef DEBUG
@@ -387,6 +388,11 @@ class Nrlmsise00 {
   double s3tloc, c3tloc;
   double apdf;
 
+  /// last latitude used (so we don't re-compute legendre polynomials)
+  double last_glat{std::numeric_limits<double>::quiet_NaN()};
+  /// last local time used (so we don't re-compute trig. numbers)
+  double last_lst{std::numeric_limits<double>::quiet_NaN()};
+
   /// @brief Replaces the original FORTRAN implementation SAM array
   constexpr double sam(int i) const noexcept {
 #ifdef DEBUG
diff --git a/src/atmosphere/nrlmsise00_glob7s.cpp b/src/atmosphere/nrlmsise00_glob7s.cpp
index 9ca1ce9..b19d713 100644
--- a/src/atmosphere/nrlmsise00_glob7s.cpp
+++ b/src/atmosphere/nrlmsise00_glob7s.cpp
@@ -14,37 +14,14 @@ double dso::Nrlmsise00::glob7s(const InParamsCore *in, double *pp) noexcept {
 
   // VERSION OF GLOBE FOR LOWER ATMOSPHERE 10/26/99
   constexpr const double pset = 2e0;
-  static int last_doy = -1e0; // last doy used
-  static double p32 = -1e3;
-  static double p18 = -1e3;
-  static double p14 = -1e3;
-  static double p39 = -1e3;
-  static double cd14;
-  static double cd18;
-  static double cd32;
-  static double cd39;
 
   if (std::abs(p[99]) < nearzero)
     p[99] = pset;
 
-  // did day of year change?
-  const bool doy_changed = (int)in->doy - last_doy != 0;
-  if (doy_changed || std::abs(p32 - p[31]) > nearzero)
-    cd32 = std::cos(dr * (doy - p[31]));
-  if (doy_changed || std::abs(p18 - p[17]) > nearzero)
-    cd18 = std::cos(2e0 * dr * (doy - p[17]));
-  if (doy_changed || std::abs(p14 - p[13]) > nearzero)
-    cd14 = std::cos(dr * (doy - p[13]));
-  if (doy_changed || std::abs(p39 - p[38]) > nearzero)
-    cd39 = std::cos(2e0 * dr * (doy - p[38]));
-
-  // update last used doy
-  last_doy = doy;
-
-  p32 = p[31];
-  p18 = p[17];
-  p14 = p[13];
-  p39 = p[39];
+  const double cd32 = std::cos(dr * (doy - p[31]));
+  const double cd18 = std::cos(2e0 * dr * (doy - p[17]));
+  const double cd14 = std::cos(dr * (doy - p[13]));
+  const double cd39 = std::cos(2e0 * dr * (doy - p[38]));
 
   t[0] = p[21] * dfa;
   
diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index bf495eb..a4c23d7 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -18,23 +18,10 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   constexpr const double hr = 0.2618e0;
   constexpr const double sr = 7.2722e-5;
 
-  // last latitude (so we don't re-compute legendre polynomials)
-  static double xl = 1000e0;
-  // last used tloc/lst (so we don't recompute trig numbers)
-  static double tll = 1000e0;
-  static double sw9 = 1e0;
-  // last doy used 
-  static int last_doy = -1;
-  static double p14 = -1e3;
-  static double p18 = -1e3;
-  static double p32 = -1e3;
-  static double p39 = -1e3;
-  static double cd14, cd18, cd32, cd39;
-
   double t[14] = {0e0};
-  sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
+  const double sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
 
-  if (std::abs(xl - in->glat) > nearzero) {
+  if (last_glat != in->glat) {
     // calculate legendre polynomials
     const double c = std::sin(dso::deg2rad(in->glat));
     const double s = std::cos(dso::deg2rad(in->glat));
@@ -68,11 +55,11 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
     plg[3][6] = (11e0 * c * plg[3][5] - 8e0 * plg[3][4]) / 3e0;
 
     // set last used latitude ...
-    xl = in->glat;
+    last_glat = in->glat;
   }
 
   const double tloc = in->lst;
-  if (std::abs(tll - tloc) > nearzero) {
+  if (last_lst != tloc) {
     if (std::abs(sw[6]) > 0e0 || std::abs(sw[7]) > 0e0 || std::abs(sw[13])) {
       stloc = std::sin(hr * tloc);
       ctloc = std::cos(hr * tloc);
@@ -82,27 +69,14 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
       c3tloc = std::cos(3e0 * hr * tloc);
 
       // update last used tloc
-      tll = tloc;
+      last_lst = tloc;
     }
   }
 
-  const bool doy_changed = last_doy - (int)in->doy != 0;
-  if (doy_changed || std::abs(p[13] - p14) > nearzero)
-    cd14 = std::cos(dr * (in->doy - p[13]));
-  if (doy_changed || std::abs(p[17] - p18) > nearzero)
-    cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
-  if (doy_changed || std::abs(p[31] - p32) > nearzero)
-    cd32 = std::cos(dr * (in->doy - p[31]));
-  if (doy_changed || std::abs(p[38] - p39) > nearzero)
-    cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
-
-  // update last doy used ...
-  last_doy = in->doy;
-
-  p14 = p[13];
-  p18 = p[17];
-  p32 = p[31];
-  p39 = p[38];
+  const double cd14 = std::cos(dr * (in->doy - p[13]));
+  const double cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
+  const double cd32 = std::cos(dr * (in->doy - p[31]));
+  const double cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
 
   // F10.7 effect
   const double df = in->f107 - in->f107A;
diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 4d855d8..0124ed9 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -20,7 +20,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
-  if (std::abs(in->sw.sw[1]) < 0)
+  if (in->sw.sw[1] == 0e0)
     xlat = 45e0;
   re = glatf(xlat, gsurf);
 
@@ -72,8 +72,9 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
   // Only calculate nodes if input changed
-  if (in->alt < zn3[0]) {
+  if (in->alt <= zn3[0]) {
     if (input_changed || altlast >= zn3[0]) {
+      tn3[0] = tn2[3];
       tgn3[0] = tgn2[1];
       tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
       tn3[2] = pma[4][0] * pavgm[4] / (1e0 - sw21 * glob7s(in, pma[4]));
@@ -86,6 +87,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   double dmr, tz;
   if (mass == 0) {
+    std::memset(d, 0, sizeof(double) * 9);
     dd = densm(in->alt, 1e0, 0e0, tz);
     t[1] = tz;
   } else {
@@ -99,7 +101,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     d[2] = densm(in->alt, dm28m, xmm, tz);
     d[2] *= (1e0 + dmr * dmc);
     // HE DENSITY
-    d[1] = 0e0;
+    d[0] = 0e0;
     if (mass == 4 || mass == 48) {
       dmr = ds[0] / (dz28 * pdm[0][1]) - 1e0;
       d[0] = d[2] * pdm[0][1] * (1e0 + dmr * dmc);
@@ -125,6 +127,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     d[7] = 0e0;
 
     // TOTAL MASS DENSITY
+    d[5] = 0e0;
     if (mass == 48) {
       d[5] = 1.66e-24 * (4e0 * d[0] + 16e0 * d[1] + 28e0 * d[2] + 32e0 * d[3] +
                          40e0 * d[4] + d[6] + 14e0 * d[7]);
diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index b1d723a..39ea507 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -117,6 +117,8 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
         out->d[2] = densu(z, db28, tinf, tlb, 28e0, alpha[2], out->t[1], ptm[5],
                           s, zn1);
         dd = out->d[2];
+        // if not in the mixed region, there is no departure from diffusion
+        dm28 = out->d[2];
         // turbopause
         const double zh28 = pdm[2][2] * zhf;
         zhm28 = pdm[2][3] * pdl[1][5];
-- 
2.43.0


From 494d699331b534e152708d20eb15eb9e3ffcdd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 36/75] fix: space weather reader: short or damaged lines,
 dates at the end of file, day change and failed updates

Columns are no longer looked up past the end of a line; impossible dates and
files ending before the needed records are errors; the last record of a file is
usable; a failed update leaves the buffers as they were; the input record is
always filled in.
---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 72 +++++++++---------
 src/var/celestrak_swdata.cpp                | 82 +++++++++++++--------
 2 files changed, 88 insertions(+), 66 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index 1240a0c..fc803ad 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -1,34 +1,46 @@
 #include "nrlmsise00.hpp"
 #include <datetime/dtfund.hpp>
+#include <cmath>
 #include <stdexcept>
 #include <cstring>
 #ifdef DEBUG
+#include <cassert>
 #include <cstdio>
 #endif
 
+namespace {
+/// @brief 3-hour interval of day, [0-8)
+int interval_of_day(double sec) noexcept {
+  const double secday = sec - std::floor(sec / 86400e0) * 86400e0;
+  const int index = static_cast<int>(secday / (3 * 60 * 60));
+  return (index > 7) ? 7 : index;
+}
+/// @brief MJD of an InParamsCore instance
+dso::modified_julian_day
+params_mjd(const dso::nrlmsise00::detail::InParamsCore &in) noexcept {
+  dso::modified_julian_day mjd(dso::ydoy2mjd(in.year, in.doy));
+  mjd += dso::modified_julian_day((int)std::floor(in.sec / 86400e0));
+  return mjd;
+}
+} // namespace
+
 dso::nrlmsise00::detail::Nrlmsise00DataFeed::Nrlmsise00DataFeed(
     const char *fncsv, dso::nrlmsise00::detail::InParamsCore &in)
     {
-      std::strcpy(fncsv_,fncsv);
+  if (std::strlen(fncsv) >= sizeof fncsv_)
+    throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
+  std::strcpy(fncsv_, fncsv);
 
-  const dso::datetime<dso::milliseconds> t(dso::datetime<dso::milliseconds>(
-      dso::year(in.year), dso::day_of_year(in.doy), dso::milliseconds(0)));
+  mjd_ = params_mjd(in);
   if (dso::utils::celestrak::details::parse_csv_for_date(
-          t.mjd(), fncsv, flux_data_, fpos, 3, 0)) {
+          mjd_, fncsv, flux_data_, fpos, 3, 0)) {
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
   }
 
-  mjd_ = t.mjd();
-
   if (init(in))
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
 }
 
-int ihours(double secday) noexcept {
-  constexpr const int sec_in_hour = 60 * 60;
-  return static_cast<int>(secday) / sec_in_hour;
-}
-
 int dso::nrlmsise00::detail::Nrlmsise00DataFeed::init(
     dso::nrlmsise00::detail::InParamsCore &in) noexcept {
 //#ifdef DEBUG
@@ -60,7 +72,7 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::init(
   in.aparr.a[0] = cur->ApDailyAverage;
 
   // // (2) 3 HR AP INDEX FOR CURRENT TIME
-  int index = ihours(in.sec) / 3;
+  int index = interval_of_day(in.sec);
 #ifdef DEBUG
   assert(index >= 0 && index < 8);
 #endif
@@ -159,7 +171,7 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::init(
   //printf("\nAdded %d number of Ap indexes\n", num_ap);
 #endif
 
-  chi = ihours(in.sec) / 3;
+  chi = interval_of_day(in.sec);
   return 0;
 }
 
@@ -167,37 +179,25 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
     dso::nrlmsise00::detail::InParamsCore &in) noexcept {
 
   int error = 0;
-  dso::modified_julian_day new_mjd(dso::ydoy2mjd(in.year, in.doy));
-  new_mjd += dso::modified_julian_day((int)(in.sec / 86400e0));
-
-  if (new_mjd == mjd_) {
-    // date not changed. let's see if the 3-hour interval changed
-    if (ihours(in.sec) / 3 == chi) {
-      // perfect! nothing to do!
-      return 0;
-    } else {
-      // shit, hour index changed
-#ifdef DEBUG
-      assert(chi != 7);
-#endif
-      error = this->init(in);
-    }
-  } else {
-    error = 0;
+  const dso::modified_julian_day new_mjd = params_mjd(in);
+
+  if (new_mjd != mjd_) {
     // if the new date is just one day ahead, quickly update data arrays ...
     if (mjd_ + dso::modified_julian_day(1) == new_mjd) {
       error = dso::utils::celestrak::details::get_next(new_mjd, fncsv_,
                                                        flux_data_, 4, fpos);
     } else {
-      // else just parse the file from the top and fill in data arrays ...
+      // else parse the file and fill in data arrays (but only if all days are
+      // found)
+      dso::utils::celestrak::details::CelestTrakSWFlux flux_data[4];
       error = dso::utils::celestrak::details::parse_csv_for_date(
-          new_mjd, fncsv_, flux_data_, fpos, 3, 0);
+          new_mjd, fncsv_, flux_data, fpos, 3, 0);
+      if (!error)
+        std::memcpy(flux_data_, flux_data, sizeof flux_data);
     }
-    if (!error) {
+    if (!error)
       mjd_ = new_mjd;
-      error = init(in);
-    }
   }
 
-  return error;
+  return error ? error : init(in);
 }
diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index 5e66737..c177945 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -17,6 +17,20 @@ constexpr const char header[] =
     "AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_"
     "OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81";
 
+namespace {
+/// @brief Skip a number of columns
+/// @return Pointer to the first char after the n-th comma, or nullptr if the
+///         string has less than n commas
+const char *skip_columns(const char *c, int n) noexcept {
+  while (n--) {
+    if (!(c = std::strchr(c, ',')))
+      return nullptr;
+    ++c;
+  }
+  return c;
+}
+} // namespace
+
 // F10.7_OBS -> 25
 // F10.7_ADJ -> 26
 // F10.7_OBS_CENTER81 -> 28
@@ -33,22 +47,15 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
     return 1;
   }
 
-  const auto sz = std::strlen(line);
   const char *c = line;
 
   // find and skip 12 ',' chars
-  int commas = 0;
-  while (*c++ && commas < 12) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  if (!(c = skip_columns(c, 12))) {
     return 2;
   }
 
-  // last character in the string, the limit for conversions
-  const char *last = line + sz - 1;
+  // end of the string (null terminating char), the limit for conversions
+  const char *last = line + std::strlen(line);
 
   // resolve the 8 hourly AP's (these are ints)
   int i = 0;
@@ -72,13 +79,7 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   // we are now at column CP; skip and, and do so also for columns:
   // C9, ISN
   // Go three ',' forward
-  commas = 0;
-  while (*c++ && commas < 3) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
-  if (!*c) {
+  if (!(c = skip_columns(c, 3))) {
     return 12;
   }
 
@@ -97,6 +98,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   }
 
   // we are now at the F10.7_DATA_TYPE; just copy three chars
+  if (last - c < 4)
+    return 15;
   std::memcpy(flux_data.flag, c, 3 * sizeof(char));
   c += 3;
   if (*c++ != ',')
@@ -132,18 +135,27 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
 int dso::utils::celestrak::details::resolve_csv_line_date(
     const char *line, dso::modified_julian_day &mjd) noexcept {
   // date format: 2017-01-10
+  if (::strnlen(line, 10) < 10 || line[4] != '-' || line[7] != '-')
+    return 1;
   int year, month, day;
   // year ...
   auto pec = std::from_chars(line, line + 4, year);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 4)
     return 1;
   // month ...
   pec = std::from_chars(line + 5, line + 7, month);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 7)
     return 1;
   // day ...
   pec = std::from_chars(line + 8, line + 10, day);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 10)
+    return 1;
+  // is the date valid ? (else, transforming to MJD throws)
+  constexpr const int mdays[] = {31, 28, 31, 30, 31, 30,
+                                 31, 31, 30, 31, 30, 31};
+  const bool leap = (!(year % 4) && year % 100) || !(year % 400);
+  if (month < 1 || month > 12 || day < 1 ||
+      day > mdays[month - 1] + (leap && month == 2))
     return 1;
 
   // to datetime ... (note that this is UTC)
@@ -233,7 +245,13 @@ int dso::utils::celestrak::details::parse_csv_for_date(
 
   // read first data line; if record_date > start_mjd data, the target date is
   // not included in the file ...
-  fin.getline(line, MAX_SW_CHARS);
+  if (!fin.getline(line, MAX_SW_CHARS)) {
+    // nothing left after fpos; try from the top
+    if (fpos2)
+      return parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
+                                days_after);
+    return eof_reached;
+  }
   if (resolve_csv_line_date(line, cmjd)) {
     fprintf(stderr, "ERROR@%s: Failed parsing SW csv line %s\n", __func__,
             line);
@@ -267,7 +285,7 @@ int dso::utils::celestrak::details::parse_csv_for_date(
 
   int days_to_resolve = days_before + 1 + days_after;
   int cdi = 0;
-  while (cdi < days_to_resolve) {
+  while (true) {
     // resolve current date data, store in flux_data[cdi]
     if ((error = resolve_csv_line_records(line, flux_data[cdi]))) {
       fprintf(stderr,
@@ -275,22 +293,26 @@ int dso::utils::celestrak::details::parse_csv_for_date(
               __func__, line, error);
       return parse_error;
     }
+    // all requested days collected ?
+    if (++cdi == days_to_resolve)
+      break;
     // read in next line (should be next day)
-    if (fin.getline(line, MAX_SW_CHARS)) {
-      error = resolve_csv_line_date(line, cmjd);
-    } else {
-      return error;
+    if (!fin.getline(line, MAX_SW_CHARS)) {
+      fprintf(stderr, "ERROR@%s Not enough days in SW CVS file %s\n", __func__,
+              fncsv);
+      return eof_reached;
     }
-    if (cmjd != start_mjd + dso::modified_julian_day{cdi + 1}) {
+    if (resolve_csv_line_date(line, cmjd) ||
+        cmjd != start_mjd + dso::modified_julian_day{cdi}) {
       fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
               fncsv);
       return parse_error;
     }
-    ++cdi;
   }
 
-  // set fpos
-  fpos = fin.tellg();
+  // set fpos, i.e. the start of the next record (if any)
+  if (!fin.eof())
+    fpos = fin.tellg();
 
   return 0;
 }
-- 
2.43.0


From aab0ad20780d25d0647b15b66584509bd18ada13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 37/75] fix: exponential atmosphere: scale height of the
 180-200 km layer is 29.740 km, altitude zero is valid

---
 src/atmosphere/exponential_atmospheric_model.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..2893f67 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
@@ -48,11 +48,11 @@ const int table_sz = sizeof(AtmTable) / sizeof(AtmLayer);
 
 double
 dso::air_density_models::exponential::density(double sat_altitude_km) noexcept {
-  assert(sat_altitude_km > 0e0);
+  assert(sat_altitude_km >= 0e0);
 
   // compute altitude, found by subtracting the Earth’s radius from the
   // satellite’s radius
-  const int alt = std::trunc(sat_altitude_km);
+  const double alt = sat_altitude_km;
   int layer_nr = table_sz - 1;
   for (int i = 0; i < table_sz - 1; i++) {
     if (alt >= AtmTable[i].limit_low && alt < AtmTable[i].limit_high) {
-- 
2.43.0


From a3f595d73c71e534f143a9a45d9dde712563cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 38/75] fix: satellite corrections: keep the first digit of
 each number, compare epochs, refuse damaged files

---
 src/satellites/satellite_corrections.cpp | 72 ++++++++++++++----------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/satellites/satellite_corrections.cpp b/src/satellites/satellite_corrections.cpp
index e602c04..215343e 100644
--- a/src/satellites/satellite_corrections.cpp
+++ b/src/satellites/satellite_corrections.cpp
@@ -1,6 +1,7 @@
 #include "satellites.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 
 int dso::get_satellite_corrections(const char *j3mass,
@@ -23,45 +24,56 @@ int dso::get_satellite_corrections(const char *j3mass,
 
   char line[256];
   int error = 0;
-  while (fin.getline(line, 256) && !error) {
-    // check for comment lines ...
-    if (line[0] != 'C' && line[0] != '/') {
-      const char *c = line;
-      char *last = line + 255;
+  bool later = false; // reached a record later than the one requested
+  while (!error && !later && fin.getline(line, 256)) {
+    const char *c = line;
+    const char *const last = line + std::strlen(line);
 
-      // remove whitespace chars
-      while (*c++ == ' '); 
+    // remove whitespace chars
+    auto skipws = [&]() {
+      while (c != last && (*c == ' ' || *c == '\t' || *c == '\r'))
+        ++c;
+    };
 
-      // first resolve datetime from Julian date
-      double cjd, csec;
-      auto pec = std::from_chars(c, last, cjd);
-      c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
-        ++error;
-      }
-      while (*c++ == ' ');
-      pec = std::from_chars(c, last, csec);
+    // resolve next number in line
+    auto next = [&](double &value) {
+      skipws();
+      const auto pec = std::from_chars(c, last, value);
+      // a number must be followed by whitespace (or nothing at all)
+      if (pec.ec != std::errc{} ||
+          (pec.ptr != last && *pec.ptr != ' ' && *pec.ptr != '\t' &&
+           *pec.ptr != '\r'))
+        return 1;
       c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
-        ++error;
-      }
+      return 0;
+    };
 
-      // reached a date later than the requested, end here
-      if (error || (cjd >= jd && csec >= sec))
-        break;
+    skipws();
+    // check for comment lines (or empty lines) ...
+    if (line[0] != 'C' && line[0] != '/' && c != last) {
+      // first resolve datetime from Julian date
+      double cjd, csec, cor[4];
+      error += next(cjd);
+      error += next(csec);
+      for (int i = 0; i < 4; i++)
+        error += next(cor[i]);
 
-      // prior date, update corrections
-      for (int i = 0; i < 4; i++) {
-        while (*c++ == ' ');
-        pec = std::from_chars(c, last, dmdxyz[i]);
-        c = pec.ptr + 1;
-        if (/**c++ != ' ' || */pec.ec != std::errc{}) {
-          ++error;
-        }
+      if (!error) {
+        // reached a date later than the requested, end here
+        later = ((cjd - jd) * 86400e0 + (csec - sec) > 0e0);
+        // prior date, update corrections
+        if (!later)
+          for (int i = 0; i < 4; i++)
+            dmdxyz[i] = cor[i];
       }
     }
   }
 
+  // we should have stopped at a later record or the end of file
+  if (!error && !later && !fin.eof()) {
+    ++error;
+  }
+
   if (error) {
     fprintf(stderr,
             "[ERROR] Failed resolving line: \"%s\" in satellite ninformation file: "
-- 
2.43.0


From 2b1ea24b1b1f48006eebea02cebbb2084934fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 39/75] fix: Jason quaternions: unset buffer records, epochs at
 or outside the data, damaged or repeated records

The buffer started with three unset records, a reading error in the first
record was reported as success, an epoch before the buffer aborted and lines
were parsed past their end.
---
 src/satellites/jason3_quaternions.cpp | 138 +++++++++++---------------
 src/satellites/jason3_quaternions.hpp |   1 +
 2 files changed, 58 insertions(+), 81 deletions(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index a4565c9..1f4e896 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -1,7 +1,9 @@
 #include "datetime/utcdates.hpp"
 #include "jason3_quaternions.hpp"
+#include <cassert>
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <datetime/dtfund.hpp>
 #include <exception>
 #include <fstream>
@@ -25,32 +27,36 @@ int resolve_jason3_body_quaternion_line(
     return 1;
   }
 
-  const char *last = line + 255;
+  const char *last = line + std::strlen(line);
   int error = 0;
   double qdata[4]; // temporary quaternion buffer
 
-  // skip field UI1 and tab character
-  const char *c = line+23+1;
-
-  // UI1 -- 10 chars, unused value
-  c += 10 + 1;
+  // skip the date field and tab character, and UI1 -- 10 chars, unused value
+  const char *c = line;
+  if (last - c < 23 + 1 + 10 + 1)
+    ++error;
+  else
+    c += 23 + 1 + 10 + 1;
 
   // parse scalar part of quaternion
   auto pec = std::from_chars(c, last, qdata[0]);
   c = pec.ptr;
-  if (*c++ != '\t' || pec.ec != std::errc{}) {
+  if (pec.ec != std::errc{} || *c++ != '\t') {
     ++error;
   }
 
   // parse vector part of quaternion
-  for (int i = 0; i < 3; i++ && !error) {
+  for (int i = 0; i < 3 && !error; i++) {
     // UI2 -- 4 chars, unused value
-    c += 4 + 1;
     // UI3 -- 10 chars, unused value
-    c += 10 + 1;
+    if (last - c < 4 + 1 + 10 + 1) {
+      ++error;
+      break;
+    }
+    c += 4 + 1 + 10 + 1;
     pec = std::from_chars(c, last, qdata[i + 1]);
     c = pec.ptr;
-    if (*c++ != '\t' || pec.ec != std::errc{}) {
+    if (pec.ec != std::errc{} || *c++ != '\t') {
       ++error;
     }
   }
@@ -80,11 +86,15 @@ int resolve_jason3_body_quaternion_line(
 
 dso::JasonQuaternionHunter::JasonQuaternionHunter(const char *body_fn)
     : bodyin(body_fn) {
-  // read-in the first two quaternions
-  if (bodyin.get_next(bodyq, 2)) {
+  // read-in the first two quaternions, at the end of the buffer
+  JasonBodyQuaternion *first = bodyq + NumQuaternionsInBuffer - 2;
+  if (bodyin.get_next(first, 2) || !(first[1].tai_mjd > first[0].tai_mjd)) {
     throw std::runtime_error(
         "ERROR JasonQuaternionHunter failed to caonstruct\n");
   }
+  // nothing prior to the first record
+  for (int i = 0; i < NumQuaternionsInBuffer - 2; i++)
+    bodyq[i] = *first;
 }
 
 int dso::JasonBodyQuaternionFile::get_next(
@@ -96,27 +106,21 @@ int dso::JasonBodyQuaternionFile::get_next(
   }
   
   // skip commanet lines, if any
-  while (line[0] == '#' && fin.good())
-    fin.getline(line, LINE_SZ);
-  
+  while (line[0] == '#') {
+    if (!fin.getline(line, LINE_SZ)) {
+      fprintf(stderr, "[ERROR] Failed to read line from quaternion file! (traceback: %s)\n", __func__);
+      return 2;
+    }
+  }
+
   return resolve_jason3_body_quaternion_line(line, record);
 }
 
 int dso::JasonBodyQuaternionFile::get_next(dso::JasonBodyQuaternion *records,
                                            int num_records) noexcept {
-  char line[LINE_SZ];
   for (int i = 0; i < num_records; i++) {
-    if (!fin.getline(line, LINE_SZ)) {
-      fprintf(stderr, "[ERROR] Failed to read line from quaternion file! (traceback: %s)\n", __func__);
-      return 2;
-    }
-
-    // skip comment lines, if any
-    while (line[0] == '#' && fin.good())
-      fin.getline(line, LINE_SZ);
-    
-    if (resolve_jason3_body_quaternion_line(line, records[i]))
-      return i*10;
+    if (int error = get_next(records[i]); error)
+      return error;
   }
 
   return 0;
@@ -126,70 +130,42 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
   // first, check if we are ok, i.e. the time requested is within the buffered
   // interval
   index = this->find_interval(tai_mjd);
-  assert(index >= 0);
-  if (index < NumQuaternionsInBuffer) {
+  if (index >= 0 && index < NumQuaternionsInBuffer) {
     return 0;
   }
 
-  // get next quaternion, hopefully we are ok now ...
-  dso::JasonBodyQuaternion tmp;
-  if (bodyin.get_next(tmp)) {
-    fprintf(
-        stderr,
-        "[ERROR] Failed to get quaternion for requested date (traceback: %s)\n",
-        __func__);
+  const int last = NumQuaternionsInBuffer - 1;
+  if (!(tai_mjd >= bodyq[0].tai_mjd)) {
+    fprintf(stderr,
+            "ERROR Requested quaternion for an epoch prior to current "
+            "interval, t=%.15f\n",
+            tai_mjd);
+    fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
+            bodyq[0].tai_mjd, bodyq[last].tai_mjd);
     return 1;
   }
 
-  // new quternion temporarilly stored in tmp
-#ifdef DEBUG
-  assert(tmp.tai_mjd > bodyq[NumQuaternionsInBuffer - 1].tai_mjd);
-#endif
-
-  // check if we are ok with this pair ...
-  if (tai_mjd >= bodyq[NumQuaternionsInBuffer - 1].tai_mjd &&
-      tai_mjd < tmp.tai_mjd) {
-    //  left shift quaternions and add the new in the last index
-    left_shift();
-    bodyq[NumQuaternionsInBuffer - 1] = tmp;
-    index = NumQuaternionsInBuffer - 2;
-
+  // at the epoch of the last record in buffer, no need to go any further
+  index = last - 1;
+  if (tai_mjd == bodyq[last].tai_mjd)
     return 0;
-  } else {
-    if (tai_mjd < bodyq[0].tai_mjd) {
+
+  // get next quaternions, untill we find a suitable interval ....
+  while (tai_mjd > bodyq[last].tai_mjd) {
+    dso::JasonBodyQuaternion tmp;
+    if (bodyin.get_next(tmp) || !(tmp.tai_mjd > bodyq[last].tai_mjd)) {
       fprintf(stderr,
-              "ERROR Requested quaternion for an epoch prior to current "
-              "interval, t=%.15f\n",
-              tai_mjd);
-      fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
-              bodyq[0].tai_mjd, bodyq[1].tai_mjd);
+              "[ERROR] Failed hunting quaternion for epoch: %.15f. Last found "
+              "was for %.15f. (traceback: %s)\n",
+              tai_mjd, bodyq[last].tai_mjd, __func__);
       return 1;
     }
-    // else, find a suitable interval ....
-    int error = 0;
+    //  left shift quaternions and add the new in the last index
     left_shift();
-    bodyq[NumQuaternionsInBuffer - 1] = tmp;
-
-    do {
-      error = bodyin.get_next(tmp);
-      left_shift();
-      bodyq[NumQuaternionsInBuffer - 1] = tmp;
-      // bodyq[0] = tmp;
-      // bodyq[1] = tmp2;
-      // tmp = tmp2;
-    } while (!error && !(tai_mjd >= bodyq[NumQuaternionsInBuffer - 2].tai_mjd &&
-                         tai_mjd < bodyq[NumQuaternionsInBuffer - 1].tai_mjd));
-#ifdef DEBUG
-if (error) {
-      fprintf(stderr,
-              "[ERROR] Failed hunting quaternion for epoch: %.15f. Last found "
-              "was for %.15f. error=%d (traceback: %s)\n",
-              tai_mjd, bodyq[NumQuaternionsInBuffer - 1].tai_mjd, error,
-              __func__);
-    }
-  #endif
-    return (error) ? (error) : ((index=NumQuaternionsInBuffer - 2)==-1);
+    bodyq[last] = tmp;
   }
+
+  return 0;
 }
 
 int dso::JasonQuaternionHunter::get_at(double tai_mjd,
@@ -200,7 +176,7 @@ int dso::JasonQuaternionHunter::get_at(double tai_mjd,
 
 #ifdef DEBUG
   assert(index>=0 && index < NumQuaternionsInBuffer-1);
-  assert(tai_mjd >= bodyq[index].tai_mjd && tai_mjd < bodyq[index+1].tai_mjd);
+  assert(tai_mjd >= bodyq[index].tai_mjd && tai_mjd <= bodyq[index+1].tai_mjd);
 #endif
 
   const int i0 = index;
diff --git a/src/satellites/jason3_quaternions.hpp b/src/satellites/jason3_quaternions.hpp
index a30fb82..de612ef 100644
--- a/src/satellites/jason3_quaternions.hpp
+++ b/src/satellites/jason3_quaternions.hpp
@@ -2,6 +2,7 @@
 #define __DSO_JASON3_QUATERNION_ROT_HPP__
 
 #include "jason3.hpp"
+#include <cstring>
 #include <fstream>
 #include <stdexcept>
 #include "eigen3/Eigen/Geometry"
-- 
2.43.0


From aef829730f07e37ebcdce01e55c0a99b22005d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 40/75] fix: Sp3Flag: setting several events keeps the ones
 already set

---
 var/flags.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/flags.cc b/var/flags.cc
index 6b9f00a..0f8a350 100644
--- a/var/flags.cc
+++ b/var/flags.cc
@@ -60,7 +60,7 @@ struct Sp3Flag {
     bits_ |= (1 << static_cast<uitype>(e));
   }
   void set(details::__WrapperFlag__ w) noexcept {
-    bits_ = w.bits_;
+    bits_ |= w.bits_;
   }
   /// Un-Mark flag with an Sp3Event (aka, unset the Sp3Event)
   void clear(Sp3Event e) noexcept {
-- 
2.43.0


From aa97efbd9648e3012be49655dcb90878debf4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 41/75] fix: table interpolation: the last node is inside the
 table, two nodes are enough

---
 var/intrp.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/var/intrp.cc b/var/intrp.cc
index f43adc5..309634e 100644
--- a/var/intrp.cc
+++ b/var/intrp.cc
@@ -28,7 +28,9 @@ struct NearestNeighborInterpolator {
         return (dist_xt1 < dist_xt2) ? base.y[i - 1] : base.y[i];
       }
     }
-    status = 2;
+    if (!(x == base.x[base.size - 1])) {
+      status = 2;
+    }
     return base.y[base.size - 1];
   }
 };
@@ -52,7 +54,9 @@ struct LinearInterpolator {
                    (x - base.x[i - 1]);
       }
     }
-    status = 2;
+    if (!(x == base.x[base.size - 1])) {
+      status = 2;
+    }
     return base.y[base.size - 1];
   }
 };
@@ -71,6 +75,12 @@ struct QuadraticInterpolator {
     }
     for (int i = 1; i < base.size; ++i) {
       if (x >= base.x[i - 1] && x < base.x[i]) {
+        if (base.size < 3) {
+          // only two nodes, interpolate linearly
+          return base.y[i - 1] +
+                 ((base.y[i - 1] - base.y[i]) / (base.x[i - 1] - base.x[i])) *
+                     (x - base.x[i - 1]);
+        }
         int idx = -1;
         if (i > 1 && i < base.size - 1) {
           double dist_xt1 = x - base.x[i - 2];
@@ -95,7 +105,9 @@ struct QuadraticInterpolator {
         return y0 * L0 + y1 * L1 + y2 *L2;
       }
     }
-    status = 2;
+    if (!(x == base.x[base.size - 1])) {
+      status = 2;
+    }
     return base.y[base.size - 1];
   }
 };
-- 
2.43.0


From 72444c0d94fc1bcb003143136afab03142311eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:13 +0000
Subject: [PATCH 42/75] fix: phase law program: 90 degrees is inside the table,
 out-of-bounds angles are flagged for every antenna

---
 var/antenna/phselaw.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/var/antenna/phselaw.cc b/var/antenna/phselaw.cc
index 9bfd03e..7f12912 100644
--- a/var/antenna/phselaw.cc
+++ b/var/antenna/phselaw.cc
@@ -1,4 +1,6 @@
 #include "ggeodesy/units.hpp"
+#include <cassert>
+#include <cmath>
 #include <cstdio>
 #include <iostream>
 
@@ -16,11 +18,14 @@ struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
     const double angle = ngpt::rad2deg<double>(zenith);
     out_of_bounds = 0;
-    if (zenith<0e0 || zenith > ngpt::DPI/2e0) {
+    if (!(zenith >= 0e0 && zenith <= ngpt::DPI/2e0)) {
+      out_of_bounds = 1;
       return 0e0;
-      out_of_bounds=1;
     }
+    // the last interval includes the horizon, i.e. an angle of 90 [deg]
     int index = std::floor(angle/5e0);
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index>=0 && index < sizeof(plarray)-1);
 #endif
@@ -32,7 +37,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 2> {
   static constexpr double offset[3] = { 0e0, 0e0, 335e0 };
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = !(zenith >= 0e0 && zenith <= ngpt::DPI/2e0);
     return 0e0;
   }
 };
@@ -47,11 +52,14 @@ struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
     const double angle(ngpt::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith<0e0 || zenith > ngpt::DPI/2e0) {
+    if (!(zenith >= 0e0 && zenith <= ngpt::DPI/2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
+    // the last interval includes the horizon, i.e. an angle of 90 [deg]
     int index = std::floor(angle/5e0);
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index>=0 && index < sizeof(plarray)-1);
 #endif
@@ -63,7 +71,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 2> {
   static double constexpr offset[3] = {0e0, 0e0, 0e0};
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = !(zenith >= 0e0 && zenith <= ngpt::DPI/2e0);
     return 0e0;
   }
 };
@@ -78,11 +86,14 @@ struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
     const double angle(ngpt::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith<0e0 || zenith > ngpt::DPI/2e0) {
+    if (!(zenith >= 0e0 && zenith <= ngpt::DPI/2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
+    // the last interval includes the horizon, i.e. an angle of 90 [deg]
     int index = std::floor(angle/5e0);
+    if (index > 17)
+      index = 17;
 #ifdef DEBUG
     assert(index>=0 && index < sizeof(plarray)-1);
 #endif
@@ -94,7 +105,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 2> {
   static constexpr double offset[3] = {0e0, 0e0, 0e0};
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = !(zenith >= 0e0 && zenith <= ngpt::DPI/2e0);
     return 0e0;
   }
 };
-- 
2.43.0


From 39c30061e7b2064918cb848ba895df56b155d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 43/75] fix: NRLMSISE-00: only the selected gas is computed
 (mass 14 gave none), no shared state between objects

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 50 +++++++++++-------------------
 src/atmosphere/nrlmsise00_gts7.cpp | 44 +++++++++-----------------
 2 files changed, 33 insertions(+), 61 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 0124ed9..3432f73 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -6,7 +6,6 @@ using namespace dso::nrlmsise00::detail;
 
 int dso::Nrlmsise00::gtd7(const InParamsCore *in,
                           dso::nrlmsise00::OutParams *out, int mass) noexcept {
-  static double altlast = 99999e0;
   constexpr const double zmix = 62.5e0;
 
   dso::nrlmsise00::OutParams outc;
@@ -14,10 +13,6 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
   double *__restrict__ t = out->t;
   double *__restrict__ ds = outc.d;
 
-  // test for changed input; fuck that, assert input changed, why give the same
-  // input ?
-  constexpr const bool input_changed = true;
-
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
   if (in->sw.sw[1] == 0e0)
@@ -52,37 +47,31 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
   // LOWER MESOSPHERE/UPPER STRATOSPHERE [between ZN3(1) and ZN2(1)]
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
-  // Only calculate nodes if input changed
   const double sw19 = in->sw.sw[19];
   const double sw21 = in->sw.sw[21];
-  if (input_changed || altlast >= zn2[0]) {
-    tgn2[0] = tgn1[1];
-    tn2[0] = tn1[4];
-    tn2[1] = pma[0][0] * pavgm[0] / (1e0 - sw19 * glob7s(in, pma[0]));
-    tn2[2] =
-        pma[1][0] * pavgm[1] / (1e0 - sw19 * glob7s(in, pma[1]));
-    tn2[3] = pma[2][0] * pavgm[2] /
-             (1e0 - sw19 * sw21 * glob7s(in, pma[2]));
-    tgn2[1] = pavgm[8] * pma[9][0] *
-              (1e0 + sw19 * sw21 * glob7s(in, pma[9])) * tn2[3] *
-              tn2[3] / std::pow(pma[2][0] * pavgm[2], 2e0);
-  }
+  tgn2[0] = tgn1[1];
+  tn2[0] = tn1[4];
+  tn2[1] = pma[0][0] * pavgm[0] / (1e0 - sw19 * glob7s(in, pma[0]));
+  tn2[2] =
+      pma[1][0] * pavgm[1] / (1e0 - sw19 * glob7s(in, pma[1]));
+  tn2[3] = pma[2][0] * pavgm[2] /
+           (1e0 - sw19 * sw21 * glob7s(in, pma[2]));
+  tgn2[1] = pavgm[8] * pma[9][0] *
+            (1e0 + sw19 * sw21 * glob7s(in, pma[9])) * tn2[3] *
+            tn2[3] / std::pow(pma[2][0] * pavgm[2], 2e0);
 
   // LOWER STRATOSPHERE AND TROPOSPHERE [below ZN3(1)]
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
-  // Only calculate nodes if input changed
   if (in->alt <= zn3[0]) {
-    if (input_changed || altlast >= zn3[0]) {
-      tn3[0] = tn2[3];
-      tgn3[0] = tgn2[1];
-      tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
-      tn3[2] = pma[4][0] * pavgm[4] / (1e0 - sw21 * glob7s(in, pma[4]));
-      tn3[3] = pma[5][0] * pavgm[5] / (1e0 - sw21 * glob7s(in, pma[5]));
-      tn3[4] = pma[6][0] * pavgm[6] / (1e0 - sw21 * glob7s(in, pma[6]));
-      tgn3[1] = pma[7][0] * pavgm[7] * (1e0 +sw21 * glob7s(in, pma[7])) *
-                tn3[4] * tn3[4] / std::pow(pma[6][0] * pavgm[6], 2e0);
-    }
+    tn3[0] = tn2[3];
+    tgn3[0] = tgn2[1];
+    tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
+    tn3[2] = pma[4][0] * pavgm[4] / (1e0 - sw21 * glob7s(in, pma[4]));
+    tn3[3] = pma[5][0] * pavgm[5] / (1e0 - sw21 * glob7s(in, pma[5]));
+    tn3[4] = pma[6][0] * pavgm[6] / (1e0 - sw21 * glob7s(in, pma[6]));
+    tgn3[1] = pma[7][0] * pavgm[7] * (1e0 +sw21 * glob7s(in, pma[7])) *
+              tn3[4] * tn3[4] / std::pow(pma[6][0] * pavgm[6], 2e0);
   }
 
   double dmr, tz;
@@ -137,8 +126,5 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     t[1] = tz;
   }
 
-  // last used altitude
-  altlast = in->alt;
-
   return 0;
 }
diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index 39ea507..0cd48ed 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -8,27 +8,18 @@ const double altl[8] = {200e0, 300e0, 160e0, 250e0, 240e0, 450e0, 320e0, 450e0};
 const double alpha[9] = {-0.380e0, 0e0,      0e0, 0e0, 0.170e0,
                          0e0,      -0.380e0, 0e0, 0e0};
 const int mt[11] = {48, 0, 4, 16, 28, 32, 40, 1, 49, 14, 17};
-double zn1[5] = {120e0, 110e0, 100e0, 90e0, 72.5e0};
 
 int dso::Nrlmsise00::gts7(const InParamsCore *in,
                           dso::nrlmsise00::OutParams *out, int mass) noexcept {
 
-  // last call with this altitude
-  static double altlast = -999e0;
-
-  // input always changed from previous call ....
-  constexpr const bool input_changed = true;
-
   const double za = pdl[1][15];
-  zn1[0] = za;
+  const double zn1[5] = {za, 110e0, 100e0, 90e0, 72.5e0};
   std::memset(out->d, 0, sizeof(double) * 9);
 
   // TINF variations not important below za or zn1(1)
   double tinf = 0e0;
   if (in->alt > zn1[0]) {
-    if (input_changed || altlast <= zn1[0]) {
-      tinf = ptm[0] * pt[0] * (1e0 + in->sw.sw[15] * globe7(in, pt));
-    }
+    tinf = ptm[0] * pt[0] * (1e0 + in->sw.sw[15] * globe7(in, pt));
   } else {
     tinf = ptm[0] * pt[0];
   }
@@ -36,17 +27,12 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
 
   // gradient variations not important below zn1(5)
   if (in->alt > zn1[4]) {
-    if (input_changed || altlast <= zn1[4]) {
-      xg0 = ptm[3] * ps[0] * (1e0 + in->sw.sw[18] * globe7(in, ps));
-    }
+    xg0 = ptm[3] * ps[0] * (1e0 + in->sw.sw[18] * globe7(in, ps));
   } else {
     xg0 = ptm[3] * ps[0];
   }
 
-  // calculate these temperatures only if input changed
-  if (input_changed || in->alt < 300e0) {
-    tlb = ptm[1] * (1e0 + in->sw.sw[16] * globe7(in, pd[3])) * pd[3][0];
-  }
+  tlb = ptm[1] * (1e0 + in->sw.sw[16] * globe7(in, pd[3])) * pd[3][0];
   const double s = xg0 / (tinf - tlb);
 
   // Lower thermosphere temp variations not significant for
@@ -58,7 +44,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     tn1[4] = ptm[4] * ptl[3][0];
     tgn1[1] = ptm[8] * pma[8][0] * tn1[4] * tn1[4] /
               std::pow(ptm[4] * ptl[3][0], 2e0);
-  } else if (input_changed || altlast >= 300e0) {
+  } else {
     tn1[1] =
         ptm[6] * ptl[0][0] / (1e0 - in->sw.sw[17] * glob7s(in, ptl[0]));
     tn1[2] =
@@ -107,7 +93,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     double tz = 0, zhm28 = 0, b28 = 0;
     double db01, db04, db14, db16, db28, db32, db40;
     if (goto_100) {
-      if (z < altl[5] || mass == 28 || mass == 48) {
+      if (z <= altl[5] || mass == 28 || mass == 48) {
         //
         //  **** N2 DENSITY ****
         //
@@ -134,7 +120,9 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
         }
       }
 
-      if (j == 1 || j == 3 || j == 4 || j == 9) {
+      // only the density of the selected gas is computed (all for mass 48,
+      // oxygen and molecular oxygen for mass 49)
+      if (j == 1 || j == 3) {
         //
         // **** HE DENSITY ****
         // BP: --
@@ -164,7 +152,9 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
           // net density corrected at alt
           out->d[0] *= ccor(z, rl, hc04, zc04);
         }
+      }
 
+      if (j == 1 || j == 4 || j == 9) {
         //
         // **** O DENSITY ****
         //
@@ -209,7 +199,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
         }
       }
 
-      if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9) {
+      if (j == 1 || j == 6 || j == 9) {
 
         //
         //  **** O2 DENSITY ****
@@ -259,7 +249,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
       }
     }
 
-    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7) {
+    if (j == 1 || j == 7) {
 
       //
       // **** AR DENSITY ****
@@ -332,7 +322,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
       }
     }
 
-    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8) {
+    if (j == 1 || j == 10) {
 
       //
       // **** ATOMIC NITROGEN DENSITY ****
@@ -371,8 +361,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
       }
     }
     
-    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8 ||
-        j == 10 || j == 11) {
+    if (j == 1 || j == 11) {
 
       //
       // **** Anomalous OXYGEN DENSITY ****
@@ -414,8 +403,5 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     out->d[5] /= 1e3;
   }
 
-  // update last used altitude
-  altlast = in->alt;
-
   return 0;
 }
-- 
2.43.0


From 736ef878b55e1045af1b59283852b488abae3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 44/75] fix: NRLMSISE-00: hydrogen is only computed when
 selected

---
 src/atmosphere/nrlmsise00_gts7.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index 0cd48ed..04544f4 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -283,7 +283,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
       }
     }
 
-    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8) {
+    if (j == 1 || j == 8) {
       //
       // **** HYDROGEN DENSITY ****
       //
-- 
2.43.0


From c43400ec08f363be2488cd16b7c958bab6a60c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 45/75] fix: ycel2ter/yter2cel read a destroyed temporary (auto
 on an Eigen product)

---
 src/itrs2gcrs.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/itrs2gcrs.cpp b/src/itrs2gcrs.cpp
index 36718b6..1141dc2 100644
--- a/src/itrs2gcrs.cpp
+++ b/src/itrs2gcrs.cpp
@@ -105,11 +105,13 @@ dso::ycel2ter(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
@@ -141,11 +143,13 @@ dso::yter2cel(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
-- 
2.43.0


From 8baf7e5c18cc5b97e42eb750917dde837c730493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 46/75] fix: extrapolate_coordinates: VEL parameter name is
 terminated

---
 src/ids/get_pdop_crd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 06f9ad8..e2527e9 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -10,7 +10,7 @@ int extrapolate_coordinates(
   const char *components[] = {"STAX", "STAY", "STAZ"};
   for (int i = 0; i < 3; i++) {
     const char *sta = components[i];
-    char vel[4] = "VEL";
+    char vel[5] = "VEL";
     vel[3] = sta[3];
     auto pos_sx =
         std::find_if(estimates.begin(), estimates.end(),
-- 
2.43.0


From 3b46cd62c6321442a67dea964c34aab293d75b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 47/75] fix: extrapolate_sinex_coordinates: missing estimates
 are an error or skipped as requested

---
 src/ids/get_pdop_crd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index e2527e9..42af964 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -143,7 +143,8 @@ int dso::extrapolate_sinex_coordinates(
 
   // get the solution estimates for the sites
   error = snx.parse_block_solution_estimate(est_vec, site_vec);
-  if (error || (int)est_vec.size() < num_stations * 6) {
+  if (error ||
+      (missing_site_is_error && (int)est_vec.size() < num_stations * 6)) {
     fprintf(stderr,
             "[ERROR] Failed to collect estimates for given sites; SINEX file "
             "is %s "
@@ -169,6 +170,8 @@ int dso::extrapolate_sinex_coordinates(
                 "[ERROR] Failed to extrapolate coordinates for site %s from "
                 "SINEX %s (traceback: %s)\n",
                 sid, snx.filename().c_str(), __func__);
+        if (missing_site_is_error)
+          return 2;
       } else {
         std::memcpy(result_array[result_size].id, sid, 4 * sizeof(char));
         result_array[result_size].x = pos[0];
-- 
2.43.0


From d0aadb3e3cb961e32d5f66a1810d28a3b23b149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 48/75] fix: relativistic clock correction: the J2 term takes
 the geocentric latitude

---
 src/relativity/relativistic_clock_correction.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/relativity/relativistic_clock_correction.cpp b/src/relativity/relativistic_clock_correction.cpp
index 550d4e7..62c312d 100644
--- a/src/relativity/relativistic_clock_correction.cpp
+++ b/src/relativity/relativistic_clock_correction.cpp
@@ -45,19 +45,17 @@ double
 dso::relativistic_clock_correction(const Eigen::Matrix<double, 3, 1> &recef,
                                    const Eigen::Matrix<double, 3, 1> &vecef,
                                    double GM, double J2, double Re) noexcept {
-  // compute ellipsoidal height
-  const auto lfh = dso::car2ell<dso::ellipsoid::grs80>(recef);
-
-  const double latitude = lfh[1]; // [rad]
-
   // norm of position vector
   const double R = recef.norm();
 
+  // sine of the geocentric latitude (argument of the zonal harmonic)
+  const double sinlat = recef(2) / R;
+
   // potential, including J2 zonal term (Lemoine et al, Eq. 15)
   const double U =
       (GM / R) *
       (1e0 - (Re / R) * (Re / R) * J2 *
-                 (3e0 * std::sin(latitude) * std::sin(latitude) - 1e0) / 2e0);
+                 (3e0 * sinlat * sinlat - 1e0) / 2e0);
 
   // velocity squared
   const double V2 = vecef.squaredNorm();
-- 
2.43.0


From dcaaa7a8c7733afb02ea775b5b39fa5b5b5ab345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 49/75] fix: variational equations: gravity partials are
 rotated to the inertial frame

---
 src/variational_equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index d7fe823..775cd97 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -72,7 +72,7 @@ void dso::VariationalEquations(
 #else
   gacc = rter2cel(gacc, rc2i, era, rpom);
   const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
-  gpartials = (rpom * rc2ti) * gpartials * (rpom * rc2ti).transpose();
+  gpartials = (rpom * rc2ti).transpose() * gpartials * (rpom * rc2ti);
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
   //    printf(" %+.6f ",(rpom * rc2ti)(i,j));
-- 
2.43.0


From be1827f5d0b8925e9184be4b2fa4a0f197082108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 50/75] fix: variational equations: atmosphere is evaluated at
 the UTC day of the epoch

---
 src/variational_equations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 775cd97..de04728 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -129,10 +129,10 @@ void dso::VariationalEquations(
     double utc_fday = std::modf(cmjd, &imjd);
     const int leap_sec = dso::dat(cmjd, eid);
     utc_fday -= leap_sec / (86400e0 + (double)eid);
-    if (utc_fday > 1e0) {
+    if (utc_fday >= 1e0) {
       utc_fday -= 1e0;
       ++imjd;
-    } else if (utc_fday < 1e0) {
+    } else if (utc_fday < 0e0) {
       utc_fday += 1e0;
       --imjd;
     }
-- 
2.43.0


From e892c93845f1264ec27328108aa16ea12a54328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 51/75] fix: NRLMSISE-00 input: local solar time is set along
 with the position

---
 src/atmosphere/nrlmsise00.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 744e185..b83c8ae 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -340,6 +340,8 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.glon = dso::rad2deg(lfh(0)); // longitude in degrees
     params_.glat = dso::rad2deg(lfh(1)); // latitude in degrees
     params_.alt  = lfh(2) * 1e-3; // altitude in km
+    // local apparent solar time in hours, consistent with UT and longitude
+    params_.lst = params_.sec / 3600e0 + params_.glon / 15e0;
   }
 };
 
-- 
2.43.0


From f358050e2f0815f4270f11aad881f01d94f786a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 52/75] fix: variational equations: density and its gradient
 use the Earth-fixed position, both sides along z

---
 src/variational_equations.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index de04728..98b9146 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -137,7 +137,7 @@ void dso::VariationalEquations(
       --imjd;
     }
     assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
-    params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
+    params.AtmDataFeed->set_spatial_from_cartesian(r_geo);
     dso::nrlmsise00::OutParams aout;
     assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
     const double atmdens = aout.d[5];
@@ -147,31 +147,31 @@ void dso::VariationalEquations(
       double p1,m1;
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       p1 = aout.d[5];
-      unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      unitv << 0e0, 0e0, -1e0;
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
-- 
2.43.0


From ed097922b91d90aba7cd2808792377a519f69c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 53/75] fix: variational equations: density gradient is given
 in the celestial frame

---
 src/variational_equations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 98b9146..94d17cf 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -175,6 +175,8 @@ void dso::VariationalEquations(
       assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
+      // from the Earth-fixed to the celestial frame
+      drhodr = rter2cel(drhodr, rc2i, era, rpom);
     }
   //  //printf("Note: Using drag coefficient=%.3f\n", params.get_drag_coefficient());
     //drag = dso::drag_accel(r, v, ProjArea, /*params.get_drag_coefficient()*/2e0,
-- 
2.43.0


From dcf56c130a318477654217959679bf6c0eed3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 54/75] fix: http_get: a write failing when the file is closed
 is an error

---
 src/web/http_get.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index eff0431..b058a63 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -60,8 +60,8 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
-    //  close the header file
-    fclose(pagefile);
+    //  close the header file; data still buffered may fail to reach the disk
+    if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
   }
 
   // remove the opened but empty file in case of error
-- 
2.43.0


From e48748e97b80a9008712dfb5aaca8d9c66ad2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 55/75] fix: http_get: do not delete a local path that could
 not be opened

---
 src/web/http_get.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index b058a63..646f388 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -64,8 +64,9 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
   }
 
-  // remove the opened but empty file in case of error
-  if (status != CURLE_OK) remove(local);
+  // remove the opened (incomplete) file in case of error; leave alone
+  // whatever it is that we could not open
+  if (pagefile && status != CURLE_OK) remove(local);
 
   //  cleanup curl stuff
   curl_easy_cleanup(curl_handle);
-- 
2.43.0


From 2b95a3902d20c52672c6ab9add2e1b3e49440831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 56/75] fix: http_get: a redirect is not the resource requested

---
 src/web/http_get.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index 646f388..6ef5aed 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -60,6 +60,11 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
+    //  redirects are not followed; their body is not the resource requested
+    long response = 0;
+    curl_easy_getinfo(curl_handle, CURLINFO_RESPONSE_CODE, &response);
+    if (status == CURLE_OK && response >= 300) status = CURLE_HTTP_RETURNED_ERROR;
+
     //  close the header file; data still buffered may fail to reach the disk
     if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
   }
-- 
2.43.0


From 42b9ec3903809a69126b6195a0f8f1fde441cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 57/75] fix: gfc_fortran2c: do not loop forever on a file
 without end_of_head

---
 script/gfc_fortran2c.py           | 3 +++
 var/icgem/script/gfc_fortran2c.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/script/gfc_fortran2c.py b/script/gfc_fortran2c.py
index 6d51aec..abe5e8d 100755
--- a/script/gfc_fortran2c.py
+++ b/script/gfc_fortran2c.py
@@ -21,6 +21,9 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. No \'end_of_head\' found in {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
diff --git a/var/icgem/script/gfc_fortran2c.py b/var/icgem/script/gfc_fortran2c.py
index 6d51aec..abe5e8d 100755
--- a/var/icgem/script/gfc_fortran2c.py
+++ b/var/icgem/script/gfc_fortran2c.py
@@ -21,6 +21,9 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. No \'end_of_head\' found in {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
-- 
2.43.0


From 6baf938f1e3d81e8feea7d4b5ce3f55784a23f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 58/75] fix: gfc_fortran2c: convert numbers without a decimal
 point or decimals, and nothing but numbers

---
 script/gfc_fortran2c.py           | 2 +-
 var/icgem/script/gfc_fortran2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/gfc_fortran2c.py b/script/gfc_fortran2c.py
index abe5e8d..a1e5406 100755
--- a/script/gfc_fortran2c.py
+++ b/script/gfc_fortran2c.py
@@ -30,6 +30,6 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## data segment ...
   line = fin.readline()
   while line:
-    line = re.sub(r"([+-]?[0-9]?\.[0-9]+)([Dd])([+-]?[0-9]+)", r"\1e\3", line)
+    line = re.sub(r"(?<![A-Za-z0-9_.])([0-9]+\.?[0-9]*|\.[0-9]+)([Dd])([+-]?[0-9]+)", r"\1e\3", line)
     print('{:}'.format(line.strip()))
     line = fin.readline()
diff --git a/var/icgem/script/gfc_fortran2c.py b/var/icgem/script/gfc_fortran2c.py
index abe5e8d..a1e5406 100755
--- a/var/icgem/script/gfc_fortran2c.py
+++ b/var/icgem/script/gfc_fortran2c.py
@@ -30,6 +30,6 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## data segment ...
   line = fin.readline()
   while line:
-    line = re.sub(r"([+-]?[0-9]?\.[0-9]+)([Dd])([+-]?[0-9]+)", r"\1e\3", line)
+    line = re.sub(r"(?<![A-Za-z0-9_.])([0-9]+\.?[0-9]*|\.[0-9]+)([Dd])([+-]?[0-9]+)", r"\1e\3", line)
     print('{:}'.format(line.strip()))
     line = fin.readline()
-- 
2.43.0


From d0fdfa97f4cffe4a299cbeb956663cc6742cdbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 59/75] fix: gfc_fortran2c: keep characters that are not UTF-8

---
 script/gfc_fortran2c.py           | 4 +++-
 var/icgem/script/gfc_fortran2c.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/script/gfc_fortran2c.py b/script/gfc_fortran2c.py
index a1e5406..09379ec 100755
--- a/script/gfc_fortran2c.py
+++ b/script/gfc_fortran2c.py
@@ -16,7 +16,9 @@ if len(sys.argv) != 2:
   print('Usage: {:} [icgem-file]'.format(sys.argv[0]))
   sys.exit(1)
 
-with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
+## headers may hold names in any encoding; pass such bytes through
+sys.stdout.reconfigure(encoding="utf8", errors='surrogateescape')
+with open(sys.argv[1], encoding="utf8", errors='surrogateescape') as fin:
 
   ## skip the header segment ...
   while True: 
diff --git a/var/icgem/script/gfc_fortran2c.py b/var/icgem/script/gfc_fortran2c.py
index a1e5406..09379ec 100755
--- a/var/icgem/script/gfc_fortran2c.py
+++ b/var/icgem/script/gfc_fortran2c.py
@@ -16,7 +16,9 @@ if len(sys.argv) != 2:
   print('Usage: {:} [icgem-file]'.format(sys.argv[0]))
   sys.exit(1)
 
-with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
+## headers may hold names in any encoding; pass such bytes through
+sys.stdout.reconfigure(encoding="utf8", errors='surrogateescape')
+with open(sys.argv[1], encoding="utf8", errors='surrogateescape') as fin:
 
   ## skip the header segment ...
   while True: 
-- 
2.43.0


From 08a3b8e144413086045cca69c38b5874a3c6f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 60/75] fix: fetch_iers_c04: order the files to merge by their
 first day

---
 script/fetch_iers_c04.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index cec061d..727a736 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -229,16 +229,7 @@ def c04_date_span(c04fn):
 ##                           {'t0':datetime_start, 't':datetime_stop}, ...
 ## to  a sorted list of filenames, base on the value 't0'
 def c04_dict_to_sorted_list(c04_dict):
-    lst = []
-    ct = datetime.datetime.max
-    for fn,vals in c04_dict.items():
-        if vals['t0'] < ct:
-            lst = [fn] + lst
-            ct = vals['t0']
-        else:
-            lst.append(fn)
-            if len(lst) == 1: ct = vals['t0']
-    return lst
+    return sorted(c04_dict, key=lambda fn: c04_dict[fn]['t0'])
 
 ## write out a list (of dicts) of IERS Bulletin B/C04 final data
 def c04_cat(outfn, *c04fns):
-- 
2.43.0


From f5e23b1f9874792bec5f34d4fd713b3380969fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 61/75] fix: fetch_iers_c04: endless search when a limit is a
 bulletin's first or last day, bulletins in between left out

---
 script/fetch_iers_c04.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index 727a736..d0235bf 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -288,7 +288,9 @@ if __name__ == '__main__':
     # guess the number of the file
     dummy_it = 0
     guess = bc04_nr0 + (t_start - bc04_first_date).days // 31
-    while not prior_covered or not post_covered and dummy_it < 1000:
+    while not prior_covered or not post_covered:
+        if dummy_it >= 1000:
+            raise RuntimeError('Failed to find bulletins covering {:} to {:}'.format(t_start, t_end))
 
         ## download remote file
         remote = bc04_url + '{:}'.format(guess)
@@ -301,17 +303,14 @@ if __name__ == '__main__':
         d0,dn = c04_date_span(local)
         vprint('\tTime span: {:} to {:}'.format(d0, dn))
 
-        ## will we be needing it?
-        file_is_of_use = False
+        ## will we be needing it? check if it overlaps the requested interval
+        file_is_of_use = d0 <= t_end and t_start <= dn
 
-        ## check if it overlaps the requested interval
-        if not prior_covered and d0 < t_start and t_start < dn:
+        if d0 <= t_start and t_start <= dn:
             prior_covered = True
-            file_is_of_use = True
 
-        if not post_covered and d0 < t_end and t_end < dn:
+        if d0 <= t_end and t_end <= dn:
             post_covered = True
-            file_is_of_use = True
 
         ## if not to be used, remove local
         if file_is_of_use:
@@ -320,12 +319,10 @@ if __name__ == '__main__':
             os.remove(local)
 
         ## next guess
-        if d0 > t_start: guess -= 1
-        elif dn < t_end: guess += 1
-        elif prior_covered and post_covered:
-          pass
-        else:
-           raise RuntimeError('WTF??')
+        if not prior_covered:
+            guess += (-1 if d0 > t_start else 1)
+        elif not post_covered:
+            guess += (1 if dn < t_end else -1)
 
         dummy_it += 1
 
-- 
2.43.0


From 82f3b279e43546371f04861b9576e59e6c8095eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 62/75] fix: fetch_iers_c04: days found in more than one
 bulletin were written twice

---
 script/fetch_iers_c04.py | 44 ++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index d0235bf..b684cf0 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -236,27 +236,31 @@ def c04_cat(outfn, *c04fns):
   #with open(outfn, 'w') as fout:
   fout = open(outfn, 'w') if outfn else sys.stdout
 
+  ## each day once, in order; a later file takes precedence
+  records = {}
+  for cfn in c04fns:
+    for line in c04_get_final_data(cfn): records[line['mjd']] = line
+  fdata = [ records[mjd] for mjd in sorted(records) ]
+
   print(header, end='', file=fout)
-  for i,cfn in enumerate(c04fns):
-    fdata = c04_get_final_data(cfn)
-    for j,line in enumerate(fdata):
-      wlst = [ '{:4d}{:>4d}{:>4d}{:>8d}'.format(line['year'], line['month'], line['day'], line['mjd']) ]
-      print(*(wlst), end='', file=fout)
-      
-      keys = ["x", "y", "ut1-utc", "dX", "dY", "x_sigma", "y_sigma", "ut1-utc_sigma", "dX_sigma", "dY_sigma"]
-      for k in keys:
-        print('{:+10.4f}'.format(line[k]), end='', file=fout)
-      print(' ', end='', file=fout)
-      
-      keys = ["lod", "lod_sigma", "omega", "omega_sigma"]
-      for k in keys:
-        print('{:+15.12f} '.format(line[k]), end='', file=fout)
-      
-      if i==len(c04fns)-1 and j==len(fdata)-1:
-        pass
-      else:
-        print('', file=fout) ## aka newline 
-      # flst = [ '{:8.3f}{:9.3f}{:10.4f}{:9.3f}{:7.3f}{:9.3f}{:9.3f}{:10.4f}{:7.3f}{:7.3f}'.format(*line[4:])]
+  for j,line in enumerate(fdata):
+    wlst = [ '{:4d}{:>4d}{:>4d}{:>8d}'.format(line['year'], line['month'], line['day'], line['mjd']) ]
+    print(*(wlst), end='', file=fout)
+    
+    keys = ["x", "y", "ut1-utc", "dX", "dY", "x_sigma", "y_sigma", "ut1-utc_sigma", "dX_sigma", "dY_sigma"]
+    for k in keys:
+      print('{:+10.4f}'.format(line[k]), end='', file=fout)
+    print(' ', end='', file=fout)
+    
+    keys = ["lod", "lod_sigma", "omega", "omega_sigma"]
+    for k in keys:
+      print('{:+15.12f} '.format(line[k]), end='', file=fout)
+    
+    if j==len(fdata)-1:
+      pass
+    else:
+      print('', file=fout) ## aka newline 
+    # flst = [ '{:8.3f}{:9.3f}{:10.4f}{:9.3f}{:7.3f}{:9.3f}{:9.3f}{:10.4f}{:7.3f}{:7.3f}'.format(*line[4:])]
 
   if fout is not sys.stdout:
     fout.close()
-- 
2.43.0


From 46c3676ac58a63fbec4d7bd2f745385a36acc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 63/75] fix: fetch scripts: an HTTP error answer was saved as
 data

---
 script/fetch_celestrak_space_weather_data_csv.py | 2 ++
 script/fetch_iers_c04.py                         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/script/fetch_celestrak_space_weather_data_csv.py b/script/fetch_celestrak_space_weather_data_csv.py
index c2753b3..1e6ecec 100755
--- a/script/fetch_celestrak_space_weather_data_csv.py
+++ b/script/fetch_celestrak_space_weather_data_csv.py
@@ -65,6 +65,8 @@ if __name__ == '__main__':
     local = os.path.join(args.save_dir, local_fn)
 
     data = requests.get(remote, allow_redirects=True)
+    ## do not save an error page as data
+    data.raise_for_status()
     open(local, 'wb').write(data.content)
 
     sys.exit(0)
diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index b684cf0..6d69221 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -300,6 +300,8 @@ if __name__ == '__main__':
         remote = bc04_url + '{:}'.format(guess)
         local  = os.path.basename(remote)
         data = requests.get(remote, allow_redirects=True)
+        ## do not save an error page as data
+        data.raise_for_status()
         open(local, 'wb').write(data.content)
         vprint('Downloaded file: {:}'.format(remote))
 
-- 
2.43.0


From 5a3665f5d6e149b9f4f95c256eef27bede3ab2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 64/75] fix: IDS logs: the last record of a file's last block
 was dropped

---
 script/pydoris/pydoris/log/ids_log_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 4ea5af1..eeb3dd0 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -96,7 +96,6 @@ class IdsLogFile:
                         line = self.istream_.readline()
 
                 elif line_is_block_header(line):
-                    ret.append(cdic)
                     break
 
                 if not next_line_read:
@@ -104,6 +103,10 @@ class IdsLogFile:
             else:
                 line = self.istream_.readline()
 
+        # last sub-block; it may well be the last one in the file
+        if cdic:
+            ret.append(cdic)
+
         return ret
 
     def parse_block_nr(self, block_nr):
-- 
2.43.0


From 42217589ed31639ec92866bc168752138ba388aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 65/75] fix: IDS logs: header of block 4 only matched (never,
 in fact) for station YEMB

---
 script/pydoris/pydoris/log/ids_log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index eeb3dd0..c399f16 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -21,7 +21,7 @@ IdsLogFileBlocks = {
     1: '1. Site location information',
     2: '2. DORIS antenna and reference point information',
     3: '3. DORIS beacons information',
-    4: '4. ITRF coordinates and velocities of the current DORIS ref. point (YEMB)',
+    4: '4. ITRF coordinates and velocities of the current DORIS ref. point',
     5: '5. IERS colocation information',
     6: '6. Tide Gauge colocation information',
     7: '7. Local site ties',
-- 
2.43.0


From ca3405b670375aa6e49466ffed885b64ed1f86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 66/75] fix: IDS logs: heights without decimals were read as
 zero, other units as meters

---
 script/pydoris/pydoris/log/ids_log_parser.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index c399f16..8a8aed3 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -124,21 +124,17 @@ def dump_log_antenna_info(logfn,fout=sys.stdout):
     for subblock in lofd:
         name = subblock["Four character ID"]
         height_str = subblock["Height above ground mark"]
-        m = re.match(r"([0-9]+.[0-9]+)?\s*m", height_str)
+        m = re.match(r"([0-9]+\.?[0-9]*|\.[0-9]+)?\s*m(et(er|re)s?)?\b", height_str)
         ## Guard against the case where no explicit "m" (aka meters) character
         ## is present. Produce a warning though
         if not m:
-            m = re.match(r"([0-9]+.[0-9]+)?\s*", height_str)
+            m = re.match(r"([0-9]+\.?[0-9]*|\.[0-9]+)(?!\s*[A-Za-z0-9.,])|(?!.*[0-9])", height_str)
             if not m:
                 errmsg = "ERROR. Failed to parse height from string \'{}\' (file {:})".format(height_str,logfn)
                 raise RuntimeError(errmsg)
             else:
                 errmsg = "WARNING. No meters (\'m\' character) explicitely recorded in height string: \'{:}\' (file {:}). Assuming meters!".format(height_str,logfn)
                 print(errmsg,file=sys.stderr)
-        if len(m.groups()) != 1:
-            errmmsg = "ERROR. Failed to parse site height from field: [{:}]".format(
-                height_str)
-            raise RuntimeError(errmsg)
         height = float(m.group(1)) if m.group(1) else 0e0
         installed_at = datetime.datetime.strptime(
             subblock["Date installed (dd/mm/yy)"], "%d/%m/%Y")
-- 
2.43.0


From 87ccc2b6694f7db08936ff7f88dd8655e91d7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 67/75] fix: scatterplot: times without excess digits could not
 be parsed

---
 script/scatterplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/scatterplot.py b/script/scatterplot.py
index 81e856c..5ef085a 100755
--- a/script/scatterplot.py
+++ b/script/scatterplot.py
@@ -140,9 +140,9 @@ def column_dictionary2time(coldict,datetime_column):
                 print("WARNING! Truncating fractional seconds for Python to parse!", file=sys.stderr)
                 break
         except:
-            if format_idx == len(dtformats-1):
+            if format_idx == len(dtformats)-1:
                 raise RuntimeError()
-    datetime_array = [datetime.datetime.strptime(' '.join([dc[0],dc[1][:-clip_at]]), dtformats[format_idx]) for dc in zip(coldict[datetime_column], coldict[datetime_column+1])]
+    datetime_array = [datetime.datetime.strptime(' '.join([dc[0],dc[1][:len(dc[1])-clip_at]]), dtformats[format_idx]) for dc in zip(coldict[datetime_column], coldict[datetime_column+1])]
     coldict[datetime_column] = datetime_array
     return coldict
 
-- 
2.43.0


From 7f1b51c6b1818efa7fa498374bf79d3d3f41e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 68/75] fix: IDS logs: blank lines holding spaces aborted the
 parser

---
 script/pydoris/pydoris/log/ids_log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 8a8aed3..8ef5723 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -65,7 +65,7 @@ class IdsLogFile:
 
         line = self.istream_.readline()
         while line:
-            if len(line):
+            if line.strip():
                 next_line_read = False
 
                 if re.match(r"{:}.[0-9]+\s*".format(block_nr), line):
-- 
2.43.0


From be596ad1c37c1b7f9cdcd5bda9dcbd5f1328446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 69/75] fix: var/saastamoinen.cc: a unicode minus sign does not
 compile

---
 var/saastamoinen.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/var/saastamoinen.cc b/var/saastamoinen.cc
index db59568..64d5ae9 100644
--- a/var/saastamoinen.cc
+++ b/var/saastamoinen.cc
@@ -1,10 +1,12 @@
+#include <cmath>
+
 /// @brief Gravity correction function for Saastamoinen model
 /// @param[in] lat The geodetic latitude of the station (radians)
 /// @param[in] H   the geodetic height of the station in meters
 /// @return Gravity correction term aka fs(φ,H)
 /// @see IERS conventions 2010, ch. 9.1.1, eq. 9.4 
 inline double fs_phiH(double lat, double H) noexcept {
-  return 1e0 − 0.00266e0*std::cos(2e0*lat) - 0.00000028e0 * H;
+  return 1e0 - 0.00266e0*std::cos(2e0*lat) - 0.00000028e0 * H;
 }
 
 /// @brief Compute zenith hydrostatic delay in meters using Saastamoinen model
-- 
2.43.0


From a8f47b085ae890a3d574473e5207af1ccf693fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 70/75] fix: cartesian2keplerian (Tapley): quadrants of the
 anomalies

---
 var/cartesian2keplerian/cartesian2keplerian.cc | 6 +++---
 var/cartesian2keplerian/tapley.cc              | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/var/cartesian2keplerian/cartesian2keplerian.cc b/var/cartesian2keplerian/cartesian2keplerian.cc
index 7b9934b..e772127 100644
--- a/var/cartesian2keplerian/cartesian2keplerian.cc
+++ b/var/cartesian2keplerian/cartesian2keplerian.cc
@@ -20,14 +20,14 @@ void cartesian2keplerian_tapley(const double *x, const double *xdot) noexcept {
   double sinf = (p/h/e) * dot_product(x, xdot) / r;
   double cosof = (x[0]/r)*std::cos(Omega) + (x[1]/r)*std::sin(Omega);
   double sinof = x[2] / r / std::sin(i);
-  double fangle = std::atan(sinf / cosf);
-  double ofangle = std::atan(sinof / cosof);
+  double fangle = std::atan2(sinf, cosf);
+  double ofangle = std::atan2(sinof, cosof);
   double omega = ofangle - fangle;
 
   double cosE = r * cosf / a + e;
   double b = a * std::sqrt(1e0 - e*e);
   double sinE = r * sinf / b;
-  double E = std::atan(sinE / cosE);
+  double E = std::atan2(sinE, cosE);
   double M = E - e * sinE;
   
   printf("a    = %15.6f\n", a);
diff --git a/var/cartesian2keplerian/tapley.cc b/var/cartesian2keplerian/tapley.cc
index ac83d9f..b0ea804 100644
--- a/var/cartesian2keplerian/tapley.cc
+++ b/var/cartesian2keplerian/tapley.cc
@@ -24,14 +24,14 @@ void cartesian2keplerian_tapley(const double *x, const double *xdot) noexcept {
   double sinf = (p/h/e) * dot_product(x, xdot) / r;
   double cosof = (x[0]/r)*std::cos(Omega) + (x[1]/r)*std::sin(Omega);
   double sinof = x[2] / r / std::sin(i);
-  double fangle = std::atan(sinf / cosf);
-  double ofangle = std::atan(sinof / cosof);
+  double fangle = std::atan2(sinf, cosf);
+  double ofangle = std::atan2(sinof, cosof);
   double omega = ofangle - fangle;
 
   double cosE = r * cosf / a + e;
   double b = a * std::sqrt(1e0 - e*e);
   double sinE = r * sinf / b;
-  double E = std::atan(sinE / cosE);
+  double E = std::atan2(sinE, cosE);
   double M = E - e * sinE;
   
   /*
-- 
2.43.0


From a1da498fbf58f823c5c31f3413747bb816c9e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 71/75] fix: cartesian2keplerian (Beutler): eccentric anomaly

---
 var/cartesian2keplerian/beutler.cc             | 2 +-
 var/cartesian2keplerian/cartesian2keplerian.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/var/cartesian2keplerian/beutler.cc b/var/cartesian2keplerian/beutler.cc
index 955946d..de711db 100644
--- a/var/cartesian2keplerian/beutler.cc
+++ b/var/cartesian2keplerian/beutler.cc
@@ -62,7 +62,7 @@ void cartesian2keplerian_beutler(const double *x, const double *xdot,
   double cosE = (e + cosv) / (1e0+e*cosv);                    // 4.51
   double E = std::atan(sinE/cosE);
   */
-  double E = std::atan(std::sqrt(1e0 + e * e) * sinv / (e + cosv));
+  double E = std::atan2(std::sqrt(1e0 - e * e) * sinv, e + cosv);
   double T0 =
       t - (E - e * std::sin(E)) / std::sqrt(ngpt::GM / a / a / a); // Table 4.2
 
diff --git a/var/cartesian2keplerian/cartesian2keplerian.cc b/var/cartesian2keplerian/cartesian2keplerian.cc
index e772127..3d0c7e5 100644
--- a/var/cartesian2keplerian/cartesian2keplerian.cc
+++ b/var/cartesian2keplerian/cartesian2keplerian.cc
@@ -98,7 +98,7 @@ void cartesian2keplerian_beutler(const double *x, const double *xdot,
   double cosE = (e + cosv) / (1e0+e*cosv);                    // 4.51
   double E = std::atan(sinE/cosE);
   */
-  double E = std::atan(std::sqrt(1e0 + e * e) * sinv / (e + cosv));
+  double E = std::atan2(std::sqrt(1e0 - e * e) * sinv, e + cosv);
   double T0 =
       t - (E - e * std::sin(E)) / std::sqrt(ngpt::GM / a / a / a); // Table 4.2
 
-- 
2.43.0


From efaeae1bf17dfe29d78476f13a0faad39b571c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 72/75] fix: cartesian2keplerian (Schwarz): quadrants of the
 node and the perigee

---
 var/cartesian2keplerian/cartesian2keplerian.cc | 4 ++--
 var/cartesian2keplerian/schwarz.cc             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/var/cartesian2keplerian/cartesian2keplerian.cc b/var/cartesian2keplerian/cartesian2keplerian.cc
index 3d0c7e5..09069fb 100644
--- a/var/cartesian2keplerian/cartesian2keplerian.cc
+++ b/var/cartesian2keplerian/cartesian2keplerian.cc
@@ -221,11 +221,11 @@ void cartesian2keplerian_schwarz(const double *x, const double *v) noexcept {
 
   // longtitude of the acending node, Ω
   double Omega = std::acos(nv[0] / n);
-  // if (nv[1]<0e0) Omega = ngpt::D2PI - Omega;
+  if (nv[1]<0e0) Omega = ngpt::D2PI - Omega;
 
   // argument of periapsis, ω
   double omega = std::acos(dot_product(nv, ev) / n / e);
-  // if (ev[2]<0e0) omega = ngpt::D2PI - omega;
+  if (ev[2]<0e0) omega = ngpt::D2PI - omega;
 
   // Mean anomaly, M
   double M = E - e * std::sin(E);
diff --git a/var/cartesian2keplerian/schwarz.cc b/var/cartesian2keplerian/schwarz.cc
index e03e5c5..f9a86b0 100644
--- a/var/cartesian2keplerian/schwarz.cc
+++ b/var/cartesian2keplerian/schwarz.cc
@@ -57,11 +57,11 @@ void cartesian2keplerian_schwarz(const double *x, const double *v) noexcept {
 
   // longtitude of the acending node, Ω
   double Omega = std::acos(nv[0] / n);
-  // if (nv[1]<0e0) Omega = ngpt::D2PI - Omega;
+  if (nv[1]<0e0) Omega = ngpt::D2PI - Omega;
 
   // argument of periapsis, ω
   double omega = std::acos(dot_product(nv, ev) / n / e);
-  // if (ev[2]<0e0) omega = ngpt::D2PI - omega;
+  if (ev[2]<0e0) omega = ngpt::D2PI - omega;
 
   // Mean anomaly, M
   double M = E - e * std::sin(E);
-- 
2.43.0


From 98853aee7a387541490093a76c662f762e963354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 73/75] fix: cartesian2keplerian (Schwarz): NaN at the apsides
 and for perigee at the node

---
 var/cartesian2keplerian/cartesian2keplerian.cc | 8 +++++---
 var/cartesian2keplerian/schwarz.cc             | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/var/cartesian2keplerian/cartesian2keplerian.cc b/var/cartesian2keplerian/cartesian2keplerian.cc
index 09069fb..9e6e075 100644
--- a/var/cartesian2keplerian/cartesian2keplerian.cc
+++ b/var/cartesian2keplerian/cartesian2keplerian.cc
@@ -207,7 +207,8 @@ void cartesian2keplerian_schwarz(const double *x, const double *v) noexcept {
   double n = std::sqrt(dot_product(nv, nv));
 
   //  True anomaly
-  double ta = std::acos(dot_product(ev, x) / e / r);
+  double ta = std::acos(
+      std::fmax(-1e0, std::fmin(1e0, dot_product(ev, x) / e / r)));
   if (dot_product(x, v) < 0e0)
     ta = ngpt::D2PI - ta;
 
@@ -220,11 +221,12 @@ void cartesian2keplerian_schwarz(const double *x, const double *v) noexcept {
   // if (E<0e0) E += ngpt::D2PI;
 
   // longtitude of the acending node, Ω
-  double Omega = std::acos(nv[0] / n);
+  double Omega = std::acos(std::fmax(-1e0, std::fmin(1e0, nv[0] / n)));
   if (nv[1]<0e0) Omega = ngpt::D2PI - Omega;
 
   // argument of periapsis, ω
-  double omega = std::acos(dot_product(nv, ev) / n / e);
+  double omega = std::acos(
+      std::fmax(-1e0, std::fmin(1e0, dot_product(nv, ev) / n / e)));
   if (ev[2]<0e0) omega = ngpt::D2PI - omega;
 
   // Mean anomaly, M
diff --git a/var/cartesian2keplerian/schwarz.cc b/var/cartesian2keplerian/schwarz.cc
index f9a86b0..89f0e4f 100644
--- a/var/cartesian2keplerian/schwarz.cc
+++ b/var/cartesian2keplerian/schwarz.cc
@@ -43,7 +43,8 @@ void cartesian2keplerian_schwarz(const double *x, const double *v) noexcept {
   double n = std::sqrt(dot_product(nv, nv));
 
   //  True anomaly
-  double ta = std::acos(dot_product(ev, x) / e / r);
+  double ta = std::acos(
+      std::fmax(-1e0, std::fmin(1e0, dot_product(ev, x) / e / r)));
   if (dot_product(x, v) < 0e0)
     ta = ngpt::D2PI - ta;
 
@@ -56,11 +57,12 @@ void cartesian2keplerian_schwarz(const double *x, const double *v) noexcept {
   // if (E<0e0) E += ngpt::D2PI;
 
   // longtitude of the acending node, Ω
-  double Omega = std::acos(nv[0] / n);
+  double Omega = std::acos(std::fmax(-1e0, std::fmin(1e0, nv[0] / n)));
   if (nv[1]<0e0) Omega = ngpt::D2PI - Omega;
 
   // argument of periapsis, ω
-  double omega = std::acos(dot_product(nv, ev) / n / e);
+  double omega = std::acos(
+      std::fmax(-1e0, std::fmin(1e0, dot_product(nv, ev) / n / e)));
   if (ev[2]<0e0) omega = ngpt::D2PI - omega;
 
   // Mean anomaly, M
-- 
2.43.0


From 3735efbce9148a96a2fae725fa741224838bb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 74/75] fix: variational equations: leap seconds of the UTC
 day, not of the TAI day, give the UTC epoch

---
 src/variational_equations.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 94d17cf..c35df64 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -127,14 +127,17 @@ void dso::VariationalEquations(
     double imjd; 
     int eid;
     double utc_fday = std::modf(cmjd, &imjd);
-    const int leap_sec = dso::dat(cmjd, eid);
-    utc_fday -= leap_sec / (86400e0 + (double)eid);
+    int leap_sec = dso::dat(imjd, eid);
+    if (utc_fday * 86400e0 < leap_sec) {
+      // still the previous UTC day, with the leap seconds of that day
+      utc_fday += 1e0;
+      --imjd;
+      leap_sec = dso::dat(imjd, eid);
+    }
+    utc_fday -= leap_sec / 86400e0;
     if (utc_fday >= 1e0) {
       utc_fday -= 1e0;
       ++imjd;
-    } else if (utc_fday < 0e0) {
-      utc_fday += 1e0;
-      --imjd;
     }
     assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
     params.AtmDataFeed->set_spatial_from_cartesian(r_geo);
-- 
2.43.0


From acfb9effe113b503953fd0f5cc4a665d09db4f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 75/75] fix: a moved-from matrix is empty, so that copying or
 filling it is harmless

---
 src/cmat2d.hpp                 | 7 +++++--
 var/icgem/src/compact2dmat.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index c5f5444..3edd8bf 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -234,10 +234,12 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::copy(mat.m_data, mat.m_data + mat.num_elements(), m_data);
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
+    // nothing left to copy, fill or access
+    mat.m_storage.rows = mat.m_storage.cols = 0;
     mat.m_data = nullptr;
   }
 
@@ -248,7 +250,7 @@ public:
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::copy(mat.m_data, mat.m_data + mat.num_elements(), m_data);
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -261,6 +263,7 @@ public:
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
       m_data = mat.m_data;
+      mat.m_storage.rows = mat.m_storage.cols = 0;
       mat.m_data = nullptr;
     }
     return *this;
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index d5e777f..5ff60ee 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -226,10 +226,12 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::copy(mat.m_data, mat.m_data + mat.num_elements(), m_data);
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
+    // nothing left to copy, fill or access
+    mat.m_storage.rows = mat.m_storage.cols = 0;
     mat.m_data = nullptr;
   }
 
@@ -240,7 +242,7 @@ public:
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::copy(mat.m_data, mat.m_data + mat.num_elements(), m_data);
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -253,6 +255,7 @@ public:
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
       m_data = mat.m_data;
+      mat.m_storage.rows = mat.m_storage.cols = 0;
       mat.m_data = nullptr;
     }
     return *this;
-- 
2.43.0

