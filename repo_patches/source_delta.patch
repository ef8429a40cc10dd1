From 39ddb6fdfc6431dc5a147c9da7494f73693e3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 001/133] fix: HarmonicCoeffs releases what it allocated on
 shrink and move-assignment, keeps capacity, survives self-move

---
 src/gravity/harmonic_coeffs.cpp   | 15 ++++++++++++---
 src/harmonic_coeffs.hpp           |  1 +
 var/icgem/src/harmonic_coeffs.cpp |  3 +++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..c534b0e 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -8,24 +8,26 @@ double *dso::HarmonicCoeffs::allocate() noexcept {
   m_data = new double *[m_degree + 1];
   for (int i = 0; i <= m_degree; i++)
     m_data[i] = new double[m_degree + 1];
+  m_capacity = m_degree;
   return m_data[0];
 }
 
 int dso::HarmonicCoeffs::deallocate() noexcept {
   if (m_data) {
-    for (int i = 0; i <= m_degree; i++)
+    for (int i = 0; i <= m_capacity; i++)
       delete[] m_data[i];
     delete[] m_data;
+    m_data = nullptr;
+    m_capacity = -1;
   }
   return 0;
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
+    if (degree <= m_capacity) {
       m_degree = degree;
     } else {
       deallocate();
-      m_data = nullptr;
       m_degree = degree;
       allocate();
     }
@@ -35,22 +37,29 @@ void dso::HarmonicCoeffs::resize(int degree) noexcept {
 dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
   this->deallocate();
   this->m_degree = h.m_degree;
+  this->m_capacity = h.m_capacity;
   this->m_data = h.m_data;
   this->_GM = h._GM;
   this->_Re = h._Re;
   this->_cnormalized = h._cnormalized;
   h.m_degree = 0;
+  h.m_capacity = -1;
   h.m_data = nullptr;
 }
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
+  this->m_capacity = h.m_capacity;
   this->m_data = h.m_data;
   this->_GM = h._GM;
   this->_Re = h._Re;
   this->_cnormalized = h._cnormalized;
   h.m_degree = 0;
+  h.m_capacity = -1;
   h.m_data = nullptr;
   return *this;
 }
diff --git a/src/harmonic_coeffs.hpp b/src/harmonic_coeffs.hpp
index 3f82235..ec40c98 100644
--- a/src/harmonic_coeffs.hpp
+++ b/src/harmonic_coeffs.hpp
@@ -56,6 +56,7 @@ public:
   double _Re{0e0}; ///< reference radius of the spherical harmonic development
   bool _cnormalized{true};  ///< coefficients are normaliized (?)
   int m_degree{0};          ///< maximum degree
+  int m_capacity{-1};       ///< degree for which memory is allocated
   double **m_data{nullptr}; ///< the actual data/coefficients
 
   /// @brief allocate memory to hold the data.
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 65903d2..4fcbfa2 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -30,6 +30,9 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
+  if (this == &h)
+    return *this;
+  this->deallocate();
   this->m_degree = h.m_degree;
   this->m_data = h.m_data;
   h.m_degree = 0;
-- 
2.43.0


From 65349f0de5233ff3cc8a20430f898009b80030a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 002/133] fix: icgem header keywords are whole words and their
 values are copied without trailing blanks or stale text

---
 src/gravity/icgemio_rdhead.cpp   | 18 ++++++++++++------
 var/icgem/src/icgemio_rdhead.cpp | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index cce597d..497577c 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -31,14 +31,14 @@ void dso::Icgem::print_details() {
 ///          return '\0'
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::strchr(" \t\r", *s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::strchr(" \t\r", *s))
     ++s;
   return s;
 }
@@ -53,16 +53,17 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   keyword_size = 0;
 
   // does the line start with the parameter_name string ?
-  if (!std::strncmp(line, parameter_name, psz)) {
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || std::strchr(" \t\r", line[psz]))) {
     // start of new word after the keyword in line
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz);
     // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (!start || stop == start) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     // parameter_name not matched in begining of line; return NULL
@@ -105,6 +106,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(product_type));
       std::strncpy(product_type, keyword, keyword_size);
+      product_type[keyword_size] = '\0';
     }
 
     // check if this the 'modelname' field (mandatory keyword)
@@ -118,6 +120,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(modelname));
       std::strncpy(modelname, keyword, keyword_size);
+      modelname[keyword_size] = '\0';
     }
 
     // check if this the 'earth_gravity_constant' field (mandatory keyword)
@@ -192,6 +195,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(errors));
       std::strncpy(errors, keyword, keyword_size);
+      errors[keyword_size] = '\0';
     }
 
     // check if this the 'tide_system' field (optional keyword)
@@ -205,6 +209,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(tide_system));
       std::strncpy(tide_system, keyword, keyword_size);
+      tide_system[keyword_size] = '\0';
     }
 
     // check if this the 'norm' field (optional keyword)
@@ -218,6 +223,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(norm));
       std::strncpy(norm, keyword, keyword_size);
+      norm[keyword_size] = '\0';
     }
 
     fin.getline(buf, bsz);
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index eee0992..777eb31 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -24,14 +24,14 @@ void dso::Icgem::print_details() {
 
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::strchr(" \t\r", *s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::strchr(" \t\r", *s))
     ++s;
   return s;
 }
@@ -40,14 +40,15 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
                                    int &keyword_size) noexcept {
   auto psz = std::strlen(parameter_name);
   keyword_size = 0;
-  if (!std::strncmp(line, parameter_name, psz)) {
-    const char *start = next_non_ws_char(line + psz + 1);
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || std::strchr(" \t\r", line[psz]))) {
+    const char *start = next_non_ws_char(line + psz);
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (!start || stop == start) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     return nullptr;
@@ -86,6 +87,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(product_type));
       std::strncpy(product_type, keyword, keyword_size);
+      product_type[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("modelname", line, keyword_size);
@@ -98,6 +100,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(modelname));
       std::strncpy(modelname, keyword, keyword_size);
+      modelname[keyword_size] = '\0';
     }
 
     keyword =
@@ -168,6 +171,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(errors));
       std::strncpy(errors, keyword, keyword_size);
+      errors[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("tide_system", line, keyword_size);
@@ -180,6 +184,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(tide_system));
       std::strncpy(tide_system, keyword, keyword_size);
+      tide_system[keyword_size] = '\0';
     }
 
     keyword = resolve_header_keyword("norm", line, keyword_size);
@@ -192,6 +197,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       assert(keyword_size < (int)sizeof(norm));
       std::strncpy(norm, keyword, keyword_size);
+      norm[keyword_size] = '\0';
     }
 
     fin.getline(buf, bsz);
-- 
2.43.0


From 1c2de8f6ecf2924fdf83b8e07aee926e471d03c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 003/133] fix: icgem header refuses partly numeric constants, a
 negative maximum degree and missing model constants

---
 src/gravity/icgemio_rdhead.cpp   | 14 +++++++++++---
 var/icgem/src/icgemio_rdhead.cpp | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index 497577c..c90dfe9 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -135,7 +135,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (end != keyword + keyword_size || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -155,7 +155,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (end != keyword + keyword_size || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -175,7 +175,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      if (end != keyword + keyword_size || max_degree <= 0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -239,6 +239,14 @@ int dso::Icgem::parse_header() noexcept {
 
   } // keep on parsing (header) lines ...
 
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree <= 0) {
+    fprintf(stderr,
+            "[ERROR] Missing model constants or max degree in icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index 777eb31..c0ba072 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -114,7 +114,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (end != keyword + keyword_size || earth_gravity_constant == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -133,7 +133,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (end != keyword + keyword_size || radius == 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -152,7 +152,7 @@ int dso::Icgem::parse_header() noexcept {
     } else if (keyword) {
       char *end;
       max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      if (end != keyword + keyword_size || max_degree <= 0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -210,6 +210,14 @@ int dso::Icgem::parse_header() noexcept {
     }
   }
 
+  if (earth_gravity_constant == 0e0 || radius == 0e0 || max_degree <= 0) {
+    fprintf(stderr,
+            "[ERROR] Missing model constants or max degree in icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
-- 
2.43.0


From 77634f631b770fefcc3eafca4fbc1adcc639bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 004/133] fix: icgem data keeps the last record of a file that
 does not end in a newline

---
 src/gravity/icgemio_rddata.cpp   | 2 +-
 var/icgem/src/icgemio_rddata.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index a240e93..5445c36 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -79,7 +79,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
   fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (!fin.fail() && coeffs_read < coeffs_to_read) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 8f3c87d..af1ee1c 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -71,7 +71,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
   fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (!fin.fail() && coeffs_read < coeffs_to_read) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
-- 
2.43.0


From 03b390b9d9fae4bd37b6f6e6e144478cb3616868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 005/133] fix: icgem data refuses records with impossible
 degree/order or a non-zero S(n,0) instead of writing out of bounds or
 aborting

---
 src/gravity/icgemio_rddata.cpp   | 16 +++++++++++++++-
 var/icgem/src/icgemio_rddata.cpp | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index 5445c36..27ee523 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -105,6 +105,14 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
@@ -133,7 +141,13 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         coeffs->C(ll, mm) = Clm;
         ++coeffs_read;
         if (mm == 0) {
-          assert(Slm == 0e0);
+          if (Slm != 0e0) {
+            fprintf(stderr,
+                    "[ERROR] Non-zero Slm for m=0 in line: [%s]; icgem file %s "
+                    "(traceback: %s)\n",
+                    line, filename.c_str(), __func__);
+            return 1;
+          }
         } else {
           coeffs->S(ll, mm) = Slm;
         }
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index af1ee1c..aaab2f0 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -97,6 +97,14 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
@@ -125,7 +133,13 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         coeffs->C(ll, mm) = Clm;
         ++coeffs_read;
         if (mm == 0) {
-          assert(Slm == 0e0);
+          if (Slm != 0e0) {
+            fprintf(stderr,
+                    "[ERROR] Non-zero Slm for m=0 in line: [%s]; icgem file %s "
+                    "(traceback: %s)\n",
+                    line, filename.c_str(), __func__);
+            return 1;
+          }
         } else {
           coeffs->S(ll, mm) = Slm;
         }
-- 
2.43.0


From 59f20049a4c4c5ef6efbc063b6473cb26ba3e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 006/133] fix: icgem data counts distinct coefficients, touches
 nothing outside the window and zeroes S(1,1) too when degree 1 is absent

---
 src/gravity/icgemio_rddata.cpp   | 26 ++++++++++++++++----------
 var/icgem/src/icgemio_rddata.cpp | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index 27ee523..2e3171e 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -66,12 +67,10 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and C_11 are missing; that is because the are nominally zero. Keep
+  // track of the coefficients read, so that at the end of parsing we know
+  // which ones (if any) are missing.
+  std::vector<bool> is_read((l + 1) * (l + 1), false);
 
   char line[max_data_line], *end, *start;
   int ll, mm;
@@ -139,7 +138,10 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        if (!is_read[ll * (l + 1) + mm]) {
+          is_read[ll * (l + 1) + mm] = true;
+          ++coeffs_read;
+        }
         if (mm == 0) {
           if (Slm != 0e0) {
             fprintf(stderr,
@@ -160,14 +162,18 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    const std::size_t num_deg1 = coeffs_nr(1, m < 1 ? m : 1) - 1;
+    if (l >= 1 && coeffs_to_read - coeffs_read == num_deg1 &&
+        !is_read[l + 1] && (m < 1 || !is_read[l + 2])) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      if (m >= 1) {
+        coeffs->C(1, 1) = 0e0;
+        coeffs->S(1, 1) = 0e0;
+      }
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index aaab2f0..ffa6ab6 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -3,6 +3,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -58,12 +59,10 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and C_11 are missing; that is because the are nominally zero. Keep
+  // track of the coefficients read, so that at the end of parsing we know
+  // which ones (if any) are missing.
+  std::vector<bool> is_read((l + 1) * (l + 1), false);
 
   char line[max_data_line], *end, *start;
   int ll, mm;
@@ -131,7 +130,10 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         // assign to harmonic coefficients matrix
         coeffs->C(ll, mm) = Clm;
-        ++coeffs_read;
+        if (!is_read[ll * (l + 1) + mm]) {
+          is_read[ll * (l + 1) + mm] = true;
+          ++coeffs_read;
+        }
         if (mm == 0) {
           if (Slm != 0e0) {
             fprintf(stderr,
@@ -152,14 +154,18 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
+    const std::size_t num_deg1 = coeffs_nr(1, m < 1 ? m : 1) - 1;
+    if (l >= 1 && coeffs_to_read - coeffs_read == num_deg1 &&
+        !is_read[l + 1] && (m < 1 || !is_read[l + 2])) {
       printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
       printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
       coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      if (m >= 1) {
+        coeffs->C(1, 1) = 0e0;
+        coeffs->S(1, 1) = 0e0;
+      }
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
-- 
2.43.0


From 98f418d7925f226a0403307d2dee56614982ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 007/133] fix: icgem data refuses partly numeric order and S
 fields

---
 src/gravity/icgemio_rddata.cpp   | 4 ++--
 var/icgem/src/icgemio_rddata.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index 2e3171e..dd74ad4 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -96,7 +96,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
       start = end;
       mm = std::strtol(start, &end, 10);
-      if (end == start) {
+      if (end == start || (*end && !std::strchr(" \t\r", *end))) {
         fprintf(stderr,
                 "[ERROR] Failed parsing order parameter in line: [%s]; icgem "
                 "file %s (traceback: %s)\n",
@@ -128,7 +128,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || (*end && !std::strchr(" \t\r", *end))) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index ffa6ab6..52856c6 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -88,7 +88,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
       start = end;
       mm = std::strtol(start, &end, 10);
-      if (end == start) {
+      if (end == start || (*end && !std::strchr(" \t\r", *end))) {
         fprintf(stderr,
                 "[ERROR] Failed parsing order parameter in line: [%s]; icgem "
                 "file %s (traceback: %s)\n",
@@ -120,7 +120,7 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || (*end && !std::strchr(" \t\r", *end))) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
-- 
2.43.0


From 02cf1bda0dc699d943f3007359aea35889dea43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 008/133] fix: denormalising harmonics of degree 0 is a no-op,
 not an abort

---
 src/gravity/harmonic_coeffs.cpp   | 2 --
 var/icgem/src/harmonic_coeffs.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index c534b0e..a5dba49 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -1,6 +1,5 @@
 #include "harmonic_coeffs.hpp"
 #include <algorithm>
-#include <cassert>
 #include <cmath>
 #include <cstdio>
 
@@ -94,7 +93,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 4fcbfa2..9ecb8dd 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -1,6 +1,5 @@
 #include "harmonic_coeffs.hpp"
 #include <algorithm>
-#include <cassert>
 #include <cmath>
 #include <cstdio>
 
@@ -68,7 +67,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
-- 
2.43.0


From 2212bbfc0fd4ad6d387a72adcbefa142cb6eb705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 009/133] fix: normalisation factors of harmonics do not
 overflow above degree 85

---
 src/gravity/harmonic_coeffs.cpp   | 7 ++++---
 var/icgem/src/harmonic_coeffs.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index a5dba49..061b50f 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -63,20 +63,21 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
-double _sum(int n, int m) noexcept {
+// square root of (n+m)! / (n-m)!; the ratio itself overflows from degree 86 on
+double _sqrt_sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
   int start = n - m + 1;
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sqrt_sum(n, i) / std::sqrt((2e0 * n + 1) * (2 - (i == 0)));
   return 0;
 }
 
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 9ecb8dd..1820866 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -39,20 +39,21 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
-double _sum(int n, int m) noexcept {
+// square root of (n+m)! / (n-m)!; the ratio itself overflows from degree 86 on
+double _sqrt_sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
   int start = n - m + 1;
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sqrt_sum(n, i) / std::sqrt((2e0 * n + 1) * (2 - (i == 0)));
   return 0;
 }
 
-- 
2.43.0


From 75c3a5def8c38c0cefaa0b3dfc06069513b03e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 010/133] fix: SGOde refuses zero tolerances and out-of-range
 flags with flag 6

---
 src/integrators/sgode_de.cpp | 11 ++++-------
 var/ode_solvers/sgode_de.cpp | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index fd6b188..177861a 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -29,8 +29,8 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
-      !iflag || (t != told && std::abs(iflag) != 1)) {
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
+      !iflag || std::abs(iflag) > 5 || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
     int error_flag = -1;
@@ -40,9 +40,9 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
-    else if (!iflag)
+    else if (!iflag || std::abs(iflag) > 5)
       error_flag = 5;
     else if (t!=told && std::abs(iflag) != 1)
       error_flag = 6;
@@ -54,9 +54,6 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const int isn = std::copysign(1, iflag);
   iflag = std::abs(iflag);
 
-  if (iflag<0 || iflag > 5)
-    return 1;
-
   // on each call set interval of integration and counter for number of
   // steps.  adjust input error tolerances to define weight vector for
   // subroutine  step
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 4d18b88..a3001aa 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -29,8 +29,8 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
-      !iflag || (t != told && std::abs(iflag) != 1)) {
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
+      !iflag || std::abs(iflag) > 5 || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
     int error_flag = -1;
@@ -40,9 +40,9 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
-    else if (!iflag)
+    else if (!iflag || std::abs(iflag) > 5)
       error_flag = 5;
     else if (t!=told && std::abs(iflag) != 1)
       error_flag = 6;
@@ -54,9 +54,6 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const int isn = std::copysign(1, iflag);
   iflag = std::abs(iflag);
 
-  if (iflag<0 || iflag > 5)
-    return 1;
-
   // on each call set interval of integration and counter for number of
   // steps.  adjust input error tolerances to define weight vector for
   // subroutine  step
-- 
2.43.0


From 57efbd060ff346d0ca16e9aed83b27c37547f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 011/133] fix: SGOde refuses a first call without a start
 instead of reading uninitialised call history

---
 src/integrators/sgode.hpp | 7 ++++---
 var/ode_solvers/sgode.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/integrators/sgode.hpp b/src/integrators/sgode.hpp
index 1adaa71..7cb2647 100644
--- a/src/integrators/sgode.hpp
+++ b/src/integrators/sgode.hpp
@@ -3,6 +3,7 @@
 
 #include "odefun.hpp"
 #include "orbit_integration.hpp"
+#include <limits>
 
 namespace dso {
 
@@ -112,14 +113,14 @@ public:
   ODEfun f;
   int neqn;
   int iflag;
-  int start,phase1,nornd,isnold,kold,k,ns;
+  int start,phase1,nornd,isnold{1},kold,k,ns;
   Eigen::MatrixXd Phi; // dimension 
   Eigen::MatrixXd ArraysNeqn; // dimension 
   double *Arrays13;
   double h,hold;
   double x;
-  double /*t,*/told;
-  double delsgn;
+  double /*t,*/told{std::numeric_limits<double>::quiet_NaN()};
+  double delsgn{0e0};
   double relerr,abserr;
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
diff --git a/var/ode_solvers/sgode.hpp b/var/ode_solvers/sgode.hpp
index a443edb..7c241c4 100644
--- a/var/ode_solvers/sgode.hpp
+++ b/var/ode_solvers/sgode.hpp
@@ -2,6 +2,7 @@
 #define __DSO_SGODE_ODE_HPP__
 
 #include "eigen3/Eigen/Eigen"
+#include <limits>
 
 namespace dso {
 // Function prototype for first order differential equations
@@ -113,14 +114,14 @@ public:
   ODEfun f;
   int neqn;
   int iflag;
-  int start,phase1,nornd,isnold,kold,k,ns;
+  int start,phase1,nornd,isnold{1},kold,k,ns;
   Eigen::MatrixXd Phi; // dimension 
   Eigen::MatrixXd ArraysNeqn; // dimension 
   double *Arrays13;
   double h,hold;
   double x;
-  double /*t,*/told;
-  double delsgn;
+  double /*t,*/told{std::numeric_limits<double>::quiet_NaN()};
+  double delsgn{0e0};
   double relerr,abserr;
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
-- 
2.43.0


From f68e0738e8951f5e2a15048df7758dff77487c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 012/133] fix: SGOde restarts after a call that could not go
 past its output point

---
 src/integrators/sgode_de.cpp | 2 +-
 var/ode_solvers/sgode_de.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index 177861a..167ef91 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -70,7 +70,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (delsgn * del <= 0e0 || isnold < 0 || iflag == 1) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index a3001aa..603d52d 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -70,7 +70,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (delsgn * del <= 0e0 || isnold < 0 || iflag == 1) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
-- 
2.43.0


From e635599913ad62b1ba6573f810df86651e2016e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 013/133] fix: SGOde step counts its own failures, halves on
 the first three and lowers the order from the third

---
 src/integrators/sgode_step.cpp | 9 +++------
 var/ode_solvers/sgode_step.cpp | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index f237283..a53f29d 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), *params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -300,10 +299,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       // -- break point 320: --
       ++ifail;
       double t2 = 5e-1;
-      if (ifail == 3) {
-        knew = 1;
-      } else if (ifail < 3) {
-        if (p5eps < 0.25 * erk)
+      if (ifail >= 3) {
+        if (ifail > 3 && p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
       }
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index 1d47793..dc4013c 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -45,7 +45,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   sig(0) = 1e0;
 
   double absh;
-  int ifail;
+  int ifail = 0;
   if (start) {
     // initialize.  compute appropriate step size for first step
     f(x, yy(), yp(), params);
@@ -66,7 +66,6 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
 
   // ***     end block 0     ***
@@ -294,10 +293,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       // -- break point 320: --
       ++ifail;
       double t2 = 5e-1;
-      if (ifail == 3) {
-        knew = 1;
-      } else if (ifail < 3) {
-        if (p5eps < 0.25 * erk)
+      if (ifail >= 3) {
+        if (ifail > 3 && p5eps < 0.25 * erk)
           t2 = std::sqrt(p5eps / erk);
         knew = 1;
       }
-- 
2.43.0


From 7a57c13f42aa9e521d948ef1430529b98ec3d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 014/133] fix: SGOde evaluates the propagated round-off terms
 before overwriting their operands

---
 src/integrators/sgode_step.cpp | 4 ++--
 var/ode_solvers/sgode_step.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index a53f29d..c165d09 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -214,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -341,7 +341,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
     // non-debug mode.
     // Don't have a fucking clue why!!!
     // const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
-    const auto rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index dc4013c..77a0c65 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -214,7 +214,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -328,7 +328,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
-- 
2.43.0


From 4cf9d795c127da9ac21b2a9cc2e7e67011ce7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 015/133] fix: SGOde refuses a purely relative tolerance on a
 vanishing component instead of writing out of bounds

---
 src/integrators/sgode_de.cpp | 5 +++++
 var/ode_solvers/sgode_de.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index 167ef91..416ed11 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -71,6 +71,11 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double abseps = abserr / eps;
 
   if (delsgn * del <= 0e0 || isnold < 0 || iflag == 1) {
+    // a vanishing component cannot be held to a purely relative tolerance
+    if (!((relerr * y0.cwiseAbs().array() + abserr).minCoeff() > 0e0)) {
+      iflag = 6;
+      return 1;
+    }
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 603d52d..4530c21 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -71,6 +71,11 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double abseps = abserr / eps;
 
   if (delsgn * del <= 0e0 || isnold < 0 || iflag == 1) {
+    // a vanishing component cannot be held to a purely relative tolerance
+    if (!((relerr * y0.cwiseAbs().array() + abserr).minCoeff() > 0e0)) {
+      iflag = 6;
+      return 1;
+    }
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
-- 
2.43.0


From fd1d55e30bd3720e7c0cb0ded878b33437ffc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 016/133] fix: RKF45 chooses its steps with the fifth root of
 the error estimate

---
 var/ode_solvers/rkf45_rkfs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..04d798e 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -131,7 +131,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 0.2e0);
       }
     }
   }
@@ -268,7 +268,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 0.2e0);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +299,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 0.2e0);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From 9f33587aede389d3d750f38e4e7abc600d89659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 017/133] fix: RKF45 measures each component against its own
 solution value

---
 var/ode_solvers/rkf45_rkfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index 04d798e..3ec6e87 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -243,7 +243,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
-- 
2.43.0


From 09caad3dfcbe91561ea10a3ed5b5079005ba7f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 018/133] fix: RKF45 initialises its call history

---
 var/ode_solvers/rkf45.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/var/ode_solvers/rkf45.hpp b/var/ode_solvers/rkf45.hpp
index 54e799d..37db08b 100644
--- a/var/ode_solvers/rkf45.hpp
+++ b/var/ode_solvers/rkf45.hpp
@@ -25,16 +25,16 @@ public:
 private:
   ODEfun f;
   int neqn;
-  int iflag, jflag, kflag;
-  int nfe,  ///< counter for function evaluations
-      kop,  ///< indicator for too many output points
-      init; ///< initialization completion indicator
+  int iflag, jflag{1}, kflag{0};
+  int nfe{0},  ///< counter for function evaluations
+      kop{0},  ///< indicator for too many output points
+      init{0}; ///< initialization completion indicator
   Eigen::MatrixXd F; // dimension 
   Eigen::VectorXd yp;
   double relerr;
   double abserr;
   double h;
-  double savae, savre;
+  double savae{0e0}, savre{0e0};
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
   void *params{nullptr};
-- 
2.43.0


From a386079d3acdb50289412d53d88f74693260118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 019/133] fix: RKF45 rejects a step that overflows instead of
 accepting it as exact

---
 var/ode_solvers/rkf45_rkfs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index 3ec6e87..8dfa609 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -252,6 +252,11 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
         const double ee = std::abs(
             (-2090e0 * yp(i) + (21970e0 * F(i, 2) - 15048e0 * F(i, 3))) +
             (22528e0 * F(i, 1) - 27360e0 * F(i, 4)));
+        if (!std::isfinite(et) || !std::isfinite(ee)) {
+          // a step that overflows is a failed step, not a perfect one
+          eeoet = std::numeric_limits<double>::infinity();
+          break;
+        }
         eeoet = std::max(eeoet, ee / et);
       }
 
-- 
2.43.0


From c0b19d4f927f6aab3ca7a51fc1b3dfd5bf20e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 020/133] fix: interpolators do not report the last tabulated
 abscissa as outside the table

---
 var/intrp.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/var/intrp.cc b/var/intrp.cc
index f43adc5..35626a9 100644
--- a/var/intrp.cc
+++ b/var/intrp.cc
@@ -28,7 +28,7 @@ struct NearestNeighborInterpolator {
         return (dist_xt1 < dist_xt2) ? base.y[i - 1] : base.y[i];
       }
     }
-    status = 2;
+    if (x != base.x[base.size - 1]) status = 2;
     return base.y[base.size - 1];
   }
 };
@@ -52,7 +52,7 @@ struct LinearInterpolator {
                    (x - base.x[i - 1]);
       }
     }
-    status = 2;
+    if (x != base.x[base.size - 1]) status = 2;
     return base.y[base.size - 1];
   }
 };
@@ -95,7 +95,7 @@ struct QuadraticInterpolator {
         return y0 * L0 + y1 * L1 + y2 *L2;
       }
     }
-    status = 2;
+    if (x != base.x[base.size - 1]) status = 2;
     return base.y[base.size - 1];
   }
 };
-- 
2.43.0


From f5c3b0be2494945ca29aabe57f0bcde65da81dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 021/133] fix: http_get does not remove a target it could not
 open

---
 src/web/http_get.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index eff0431..d9bdddc 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -62,10 +62,10 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
 
     //  close the header file
     fclose(pagefile);
-  }
 
-  // remove the opened but empty file in case of error
-  if (status != CURLE_OK) remove(local);
+    // remove the opened but empty file in case of error
+    if (status != CURLE_OK) remove(local);
+  }
 
   //  cleanup curl stuff
   curl_easy_cleanup(curl_handle);
-- 
2.43.0


From 0c5e4622534eee054217a8d20b7314003315e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 022/133] fix: http_get reports data that could not be written
 when the file is closed

---
 src/web/http_get.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index d9bdddc..6c64522 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -60,8 +60,8 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
-    //  close the header file
-    fclose(pagefile);
+    //  close the header file; buffered data may fail to be written only now
+    if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
 
     // remove the opened but empty file in case of error
     if (status != CURLE_OK) remove(local);
-- 
2.43.0


From a2ae93b9be94610606f91eeb510a27bc6ae5ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 023/133] fix: http_get does not store the body of a
 redirection as the file

---
 src/web/http_get.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index 6c64522..3062efc 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -60,6 +60,12 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
+    //  a redirection (3xx) carries no file, and FAILONERROR lets it pass
+    long response = 0;
+    curl_easy_getinfo(curl_handle, CURLINFO_RESPONSE_CODE, &response);
+    if (status == CURLE_OK && response >= 300)
+      status = CURLE_HTTP_RETURNED_ERROR;
+
     //  close the header file; buffered data may fail to be written only now
     if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
 
-- 
2.43.0


From 1c10b8e95fb3364c27deeef90f187c0a5a28f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 024/133] fix: copying a compact matrix copies its values

---
 src/cmat2d.hpp                 | 4 ++--
 var/icgem/src/compact2dmat.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..6ec2214 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -247,7 +247,7 @@ public:
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 408ea00..34fe8d0 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -226,7 +226,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -239,7 +239,7 @@ public:
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
-- 
2.43.0


From 2c42a41af937611526f5ce19d14573ea79ea47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 025/133] fix: moving a compact matrix releases the target's
 data and leaves the source reusable

---
 src/cmat2d.hpp                 | 16 +++++++++++-----
 var/icgem/src/compact2dmat.hpp | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 6ec2214..b4a7983 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -239,11 +239,12 @@ public:
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
     mat.m_data = nullptr;
+    mat.m_storage.rows = mat.m_storage.cols = 0;
   }
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (num_elements() != mat.num_elements()) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
@@ -255,10 +256,15 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+      mat.m_storage.rows = mat.m_storage.cols = 0;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 34fe8d0..462fb1f 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -231,11 +231,12 @@ public:
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
     mat.m_data = nullptr;
+    mat.m_storage.rows = mat.m_storage.cols = 0;
   }
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (num_elements() != mat.num_elements()) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
@@ -247,10 +248,15 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+      mat.m_storage.rows = mat.m_storage.cols = 0;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From d9b4f338829a3ab749f2232bc0f4eadcba43153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 026/133] fix: elements above the diagonal of a compact
 triangular matrix mirror those below

---
 src/cmat2d.hpp                 | 2 +-
 var/icgem/src/compact2dmat.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index b4a7983..82a484d 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -69,7 +69,7 @@ template <> struct StorageImplementation<MatrixStorageType::Trapezoid> {
   /// E.g. data[element_offset(1,2)] will return the element in the second row,
   /// and third column.
   constexpr int element_offset(int row, int column) const noexcept {
-    return (column <= rows) ? (slice(row) + column) : (slice(column) + row);
+    return (column <= row) ? (slice(row) + column) : (slice(column) + row);
   }
 
 #ifdef DEBUG
diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 462fb1f..011e67e 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -68,7 +68,7 @@ template <> struct StorageImplementation<MatrixStorageType::Trapezoid> {
   /// E.g. data[element_offset(1,2)] will return the element in the second row,
   /// and third column.
   constexpr int element_offset(int row, int column) const noexcept {
-    return (column <= rows) ? (slice(row) + column) : (slice(column) + row);
+    return (column <= row) ? (slice(row) + column) : (slice(column) + row);
   }
 
 #ifdef DEBUG
-- 
2.43.0


From 5c41a6e335386056bc9207d3bf74311d7b428840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 027/133] fix: row/column pointers of the compact matrix
 (var/icgem copy) compile

---
 var/icgem/src/compact2dmat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/var/icgem/src/compact2dmat.hpp b/var/icgem/src/compact2dmat.hpp
index 011e67e..d615f1a 100644
--- a/var/icgem/src/compact2dmat.hpp
+++ b/var/icgem/src/compact2dmat.hpp
@@ -197,14 +197,14 @@ public:
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
   const double *slice(int i) const noexcept {
-    return m_data[m_storage(slice(i))];
+    return m_data + m_storage.slice(i);
   }
 
   /// @brief Row/Column indexing (rows and columns start from 0 --not 1--)
   /// If the data is tored in a Row-Wise manner, this function will return the
   /// offset of the ith row; if data is stored in a column-wise manner, it will
   /// return the index of the first elelement of the ith column
-  double *slice(int i) noexcept { return m_data[m_storage(slice(i))]; }
+  double *slice(int i) noexcept { return m_data + m_storage.slice(i); }
 
   void fill_with(double val) noexcept {
     std::fill(m_data, m_data + m_storage.num_elements(), val);
-- 
2.43.0


From e4a3945c0dcc4dacd5b53f47feb467908c8ae6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 028/133] fix: copying an EOP table copies whole values, not
 the first bytes

---
 src/eop.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..d4b60d3 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -189,21 +189,21 @@ public:
       if (sz != eopt.sz) {
         this->resize(eopt.sz);
       }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
+      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sizeof(double) * sz);
       xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
+                                  eopt.mem_arena + 1 * eopt.capacity, sizeof(double) * sz);
       ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
+                                  eopt.mem_arena + 2 * eopt.capacity, sizeof(double) * sz);
       ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
+                                   eopt.mem_arena + 3 * eopt.capacity, sizeof(double) * sz);
       dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
+                                  eopt.mem_arena + 4 * eopt.capacity, sizeof(double) * sz);
       dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
+                                  eopt.mem_arena + 5 * eopt.capacity, sizeof(double) * sz);
       loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
+                                   eopt.mem_arena + 6 * eopt.capacity, sizeof(double) * sz);
       omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+                                     eopt.mem_arena + 7 * eopt.capacity, sizeof(double) * sz);
     }
     return *this;
   }
@@ -235,21 +235,21 @@ public:
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
       : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
+        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sizeof(double) * sz)),
         xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 1 * eopt.capacity, sizeof(double) * sz)),
         ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 2 * eopt.capacity, sizeof(double) * sz)),
         ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
+                                   eopt.mem_arena + 3 * eopt.capacity, sizeof(double) * sz)),
         dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 4 * eopt.capacity, sizeof(double) * sz)),
         dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
+                                  eopt.mem_arena + 5 * eopt.capacity, sizeof(double) * sz)),
         loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
+                                   eopt.mem_arena + 6 * eopt.capacity, sizeof(double) * sz)),
         omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+                                     eopt.mem_arena + 7 * eopt.capacity, sizeof(double) * sz)) {}
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
-- 
2.43.0


From 9ad113e3734a3150c7e052b191484ef61309c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 029/133] fix: moving an EOP table keeps its capacity and
 releases the target

---
 src/eop.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index d4b60d3..d6bc7fb 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -176,7 +176,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -212,8 +212,9 @@ public:
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
       // just move elements ...
+      delete[] mem_arena;
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
-- 
2.43.0


From 7fe28bbd74e2748088db04ed6b9061af20f8bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 030/133] fix: resizing an EOP table to its full capacity keeps
 the stored values

---
 src/eop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index d6bc7fb..9161173 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -147,7 +147,7 @@ public:
   /// @brief Resize; alocation/dealocation depends on capacity
   void resize(int sz_) noexcept {
     // no need to dealocate/alocate; just change the effective size
-    if (sz_ < capacity) {
+    if (sz_ <= capacity) {
       sz = sz_;
       return;
     } else {
-- 
2.43.0


From add684c5bac57eb57a2b0a3d0f8c0d40fb6b2180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 031/133] fix: polynomial models can be copy-assigned

---
 src/filters/models.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..7ccb424 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -49,10 +49,10 @@ namespace dso {
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
         std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        xref = p.xref;
       }
       return *this;
     }
-- 
2.43.0


From 379a17948dad59c6a353bbc825331bc6671a4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 032/133] fix: polynomial models release their coefficients
 exactly once

---
 src/filters/models.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index 7ccb424..5523d65 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -41,7 +41,7 @@ namespace dso {
     PolynomialModel(int porder) noexcept
         : _order(porder), cf(new double[porder + 1]){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf;}
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
@@ -58,12 +58,20 @@ namespace dso {
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) {
+      p._order = -1;
+      p.cf = nullptr;
+    }
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p._order = -1;
+        p.cf = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0


From 92eb1263a7a43e4bca5762b33a203a08066c1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 033/133] fix: a reversed date interval gives an error, not an
 EOP table of negative size

---
 src/iers/parse_c04.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index 9af4ea6..ee92927 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -45,6 +45,11 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
 
   // if needed, resize the EOP table, interval is [start.end)
   int days = end_mjd.as_underlying_type() - start_mjd.as_underlying_type();
+  if (days < 0) {
+    fprintf(stderr, "[ERROR] Invalid date interval for EOP (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
   eoptable.resize(days);
 
   char line[MAX_LINE_CHARS];
-- 
2.43.0


From 305e1a74eba0de3ed49f99e7bed7f8ef0f969a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 034/133] fix: a truncated EOP line is an error instead of
 being read past its end

---
 src/iers/parse_c04.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index ee92927..cca6ddc 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -64,8 +64,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
     if (*line && (*line != ' ' && *line != '#')) {
       // skip the data (YYYY MM DD) which is 12 chars length
       // get the mjd
-      start = next_num(line + 12);
       end = line + std::strlen(line);
+      start = (end - line > 12) ? next_num(line + 12) : end;
       auto fcr = std::from_chars(start, end, imjd);
       if (fcr.ec != std::errc() || fcr.ptr == start) {
         fprintf(stderr,
-- 
2.43.0


From 5e51ccc9c6cc1147d45dd7f570ac370bedaeb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 035/133] fix: repeated days of an EOP file no longer stand in
 for missing ones or overrun the table

---
 src/iers/parse_c04.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index cca6ddc..31a7224 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -81,6 +81,14 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
       // if the date is ok, collect data
       if (cmjd >= start_mjd && cmjd < end_mjd) {
         error = 0;
+        // days must be listed in chronological order, one line per day
+        if (imjd != start_mjd.as_underlying_type() + sz) {
+          fprintf(stderr,
+                  "[ERROR] Missing or repeated day before EOP line [%s]. EOP "
+                  "file is %s (traceback: %s)\n",
+                  line, c04fn, __func__);
+          return 2;
+        }
         // do we need to transform the given UTC date to TAI?
         if (utc2tt) {
           dso::modified_julian_day tai_mjd;
-- 
2.43.0


From 7102ef8d65d1e4721dad5307ec94381807f8e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 036/133] fix: a failed EOP interpolation is reported

---
 src/iers/eop_interpolate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..09daa8f 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -43,7 +43,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order))
+    return 1;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
-- 
2.43.0


From 4bc2a6965baed5ce01334ad8a98ecf47f2255cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 037/133] fix: fields of the satellite mass history are read
 from their first character and within their line

---
 src/satellites/satellite_corrections.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/satellites/satellite_corrections.cpp b/src/satellites/satellite_corrections.cpp
index e602c04..5e4cb58 100644
--- a/src/satellites/satellite_corrections.cpp
+++ b/src/satellites/satellite_corrections.cpp
@@ -1,6 +1,7 @@
 #include "satellites.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 
 int dso::get_satellite_corrections(const char *j3mass,
@@ -27,22 +28,24 @@ int dso::get_satellite_corrections(const char *j3mass,
     // check for comment lines ...
     if (line[0] != 'C' && line[0] != '/') {
       const char *c = line;
-      char *last = line + 255;
+      const char *last = line + std::strlen(line);
 
       // remove whitespace chars
-      while (*c++ == ' '); 
+      while (*c == ' ')
+        ++c;
 
       // first resolve datetime from Julian date
       double cjd, csec;
       auto pec = std::from_chars(c, last, cjd);
       c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
+      if (*c != ' ' || pec.ec != std::errc{}) {
         ++error;
       }
-      while (*c++ == ' ');
+      while (*c == ' ')
+        ++c;
       pec = std::from_chars(c, last, csec);
       c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
+      if (*c != ' ' || pec.ec != std::errc{}) {
         ++error;
       }
 
@@ -52,9 +55,10 @@ int dso::get_satellite_corrections(const char *j3mass,
 
       // prior date, update corrections
       for (int i = 0; i < 4; i++) {
-        while (*c++ == ' ');
+        while (*c == ' ')
+          ++c;
         pec = std::from_chars(c, last, dmdxyz[i]);
-        c = pec.ptr + 1;
+        c = pec.ptr;
         if (/**c++ != ' ' || */pec.ec != std::errc{}) {
           ++error;
         }
-- 
2.43.0


From 63b8d189ca9d3b4da657155ed8693bd6d342d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 038/133] fix: the satellite mass record in force is found by
 its full date and time

---
 src/satellites/satellite_corrections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satellites/satellite_corrections.cpp b/src/satellites/satellite_corrections.cpp
index 5e4cb58..7cc0736 100644
--- a/src/satellites/satellite_corrections.cpp
+++ b/src/satellites/satellite_corrections.cpp
@@ -50,7 +50,7 @@ int dso::get_satellite_corrections(const char *j3mass,
       }
 
       // reached a date later than the requested, end here
-      if (error || (cjd >= jd && csec >= sec))
+      if (error || (cjd - jd) * 86400e0 + (csec - sec) > 0e0)
         break;
 
       // prior date, update corrections
-- 
2.43.0


From 31a3d7158ff0f62e317a1dd09b65b15f6e14afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 039/133] fix: the attitude buffer no longer starts with
 uninitialised records

---
 src/satellites/jason3_quaternions.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index a4565c9..f8ca03d 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -80,11 +80,15 @@ int resolve_jason3_body_quaternion_line(
 
 dso::JasonQuaternionHunter::JasonQuaternionHunter(const char *body_fn)
     : bodyin(body_fn) {
-  // read-in the first two quaternions
-  if (bodyin.get_next(bodyq, 2)) {
+  // read-in the first two quaternions, at the end of the buffer ...
+  constexpr const int first = NumQuaternionsInBuffer - 2;
+  if (bodyin.get_next(bodyq + first, 2)) {
     throw std::runtime_error(
         "ERROR JasonQuaternionHunter failed to caonstruct\n");
   }
+  // ... nothing is held before the first one
+  for (int i = 0; i < first; i++)
+    bodyq[i] = bodyq[first];
 }
 
 int dso::JasonBodyQuaternionFile::get_next(
-- 
2.43.0


From ee991285416dafca6c81ea9344e4920a00497692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 040/133] fix: an unreadable first attitude record is an error

---
 src/satellites/jason3_quaternions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index f8ca03d..8ac9ba9 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -120,7 +120,7 @@ int dso::JasonBodyQuaternionFile::get_next(dso::JasonBodyQuaternion *records,
       fin.getline(line, LINE_SZ);
     
     if (resolve_jason3_body_quaternion_line(line, records[i]))
-      return i*10;
+      return (i+1)*10;
   }
 
   return 0;
-- 
2.43.0


From 9842283c6293146630576d97eb3c93d2b5c2eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 041/133] fix: an attitude query before the buffered records is
 an error, not an abort or an out-of-bounds read

---
 src/satellites/jason3_quaternions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index 8ac9ba9..a338f1a 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -130,7 +130,13 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
   // first, check if we are ok, i.e. the time requested is within the buffered
   // interval
   index = this->find_interval(tai_mjd);
-  assert(index >= 0);
+  if (index < 0) {
+    fprintf(stderr,
+            "[ERROR] Requested quaternion for an epoch prior to current "
+            "interval, t=%.15f (traceback: %s)\n",
+            tai_mjd, __func__);
+    return 1;
+  }
   if (index < NumQuaternionsInBuffer) {
     return 0;
   }
-- 
2.43.0


From bd36ac5c96e12228d7a9242a385f8e7fa06c8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 042/133] fix: a record that could not be read does not enter
 the attitude buffer

---
 src/satellites/jason3_quaternions.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index a338f1a..163eaca 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -182,8 +182,10 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
 
     do {
       error = bodyin.get_next(tmp);
-      left_shift();
-      bodyq[NumQuaternionsInBuffer - 1] = tmp;
+      if (!error) {
+        left_shift();
+        bodyq[NumQuaternionsInBuffer - 1] = tmp;
+      }
       // bodyq[0] = tmp;
       // bodyq[1] = tmp2;
       // tmp = tmp2;
-- 
2.43.0


From 7a5740fbe0d0e27b8bd78a14245a88a281b2b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 043/133] fix: a truncated attitude record is an error instead
 of being completed from the line before

---
 src/satellites/jason3_quaternions.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index 163eaca..f6797f0 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -2,6 +2,7 @@
 #include "jason3_quaternions.hpp"
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <datetime/dtfund.hpp>
 #include <exception>
 #include <fstream>
@@ -25,7 +26,7 @@ int resolve_jason3_body_quaternion_line(
     return 1;
   }
 
-  const char *last = line + 255;
+  const char *last = line + std::strlen(line);
   int error = 0;
   double qdata[4]; // temporary quaternion buffer
 
@@ -34,12 +35,20 @@ int resolve_jason3_body_quaternion_line(
 
   // UI1 -- 10 chars, unused value
   c += 10 + 1;
+  if (c > last) {
+    fprintf(stderr,
+            "[ERROR] Truncated (body) Jason-3 quaternion line: \'%s\' "
+            "(traceback: %s)\n",
+            line, __func__);
+    return 1;
+  }
 
   // parse scalar part of quaternion
   auto pec = std::from_chars(c, last, qdata[0]);
   c = pec.ptr;
   if (*c++ != '\t' || pec.ec != std::errc{}) {
     ++error;
+    c = last;
   }
 
   // parse vector part of quaternion
@@ -48,10 +57,15 @@ int resolve_jason3_body_quaternion_line(
     c += 4 + 1;
     // UI3 -- 10 chars, unused value
     c += 10 + 1;
+    if (c > last) {
+      ++error;
+      break;
+    }
     pec = std::from_chars(c, last, qdata[i + 1]);
     c = pec.ptr;
     if (*c++ != '\t' || pec.ec != std::errc{}) {
       ++error;
+      c = last;
     }
   }
 
-- 
2.43.0


From c86166ec601152cdcc07688e1bc9d847df5593d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 044/133] fix: a further SYS / SCALE FACTOR line no longer
 resets the factors of the lines before it

---
 src/rinex/read_rnx_header.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 04455f4..2f0ade5 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -198,11 +198,11 @@ int dso::DorisObsRinex::read_header() noexcept {
       // SYS / SCALE FACTOR; get/fill m_obs_scale_factors
       if (*line != 'D')
         return 141;
-      if (!m_obs_scale_factors.empty())
-        m_obs_scale_factors.clear();
-      // create a vector of 1's with a size equal to m_obs_codes. the two
-      // vectors will have a one-to-one correspondance
-      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
+      // create a vector of 1's with a size equal to m_obs_codes (unless a
+      // previous line already did). the two vectors will have a one-to-one
+      // correspondance
+      if (m_obs_scale_factors.size() != m_obs_codes.size())
+        m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
       int factor = std::strtol(line + 2, &end, 10);
       if (!factor || (errno || end == line + 2)) {
         errno = 0;
-- 
2.43.0


From b0c08035569b92eb2097d345cfb07bc48a690be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 045/133] fix: a SYS / SCALE FACTOR line without observation
 types applies to all of them

---
 src/rinex/read_rnx_header.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 2f0ade5..5a0199e 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -210,7 +210,9 @@ int dso::DorisObsRinex::read_header() noexcept {
       }
       int num_obs;
       if (line[8] == line[9] && line[8] == ' ') { // blank means all ....
-        num_obs = m_obs_scale_factors.size();
+        std::fill(m_obs_scale_factors.begin(), m_obs_scale_factors.end(),
+                  factor);
+        num_obs = 0;
       } else {
         // scale factors can be defined for any number of ObservationCodes, in
         // the range [0, m_obs_codes.size()]
-- 
2.43.0


From 7dc546c8d84569732e6eeb30764eb15ef2d264e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 046/133] fix: a RINEX header without scale factors is not an
 error

---
 src/rinex/read_rnx_header.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 5a0199e..ceb5998 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -354,6 +354,10 @@ int dso::DorisObsRinex::read_header() noexcept {
   if (!m_stream.good() || !m_end_of_head)
     return -2;
 
+  // factors are optional, the default is 1
+  if (m_obs_scale_factors.empty())
+    m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
+
   // final checks on collected info
   if (m_obs_codes.size() != m_obs_scale_factors.size() ||
       obs_types_num != static_cast<int>(m_obs_codes.size()))
-- 
2.43.0


From e2d9e154bb8764422cccbd7166b69f7b1af9d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 047/133] fix: a RINEX header that lists another number of time
 reference beacons than announced is an error

---
 src/rinex/read_rnx_header.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index ceb5998..709ecdc 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -363,6 +363,7 @@ int dso::DorisObsRinex::read_header() noexcept {
       obs_types_num != static_cast<int>(m_obs_codes.size()))
     return -3;
   if (num_stations != static_cast<int>(m_stations.size()) ||
+      num_ref_stations != static_cast<int>(m_ref_stations.size()) ||
       m_ref_stations.size() >= m_stations.size())
     return -3;
 
-- 
2.43.0


From 78a4a5e463110eb46777d24a17b40f60f580bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 048/133] fix: an errno left over from elsewhere does not make
 a RINEX header unreadable

---
 src/rinex/read_rnx_header.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 709ecdc..5809a66 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -274,6 +274,7 @@ int dso::DorisObsRinex::read_header() noexcept {
       //       (int)m_stations.capacity());
 
     } else if (!std::strncmp(line + 60, "STATION REFERENCE", 17)) {
+      errno = 0;
       // STATION REFERENCE; fill m_stations (err. code 170)
       m_stations.emplace_back(dso::BeaconStation{});
       if (m_stations[m_stations.size() - 1].set_from_rinex_line(line)) {
@@ -329,7 +330,7 @@ int dso::DorisObsRinex::read_header() noexcept {
 
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              19)) { // Code: 210
-
+      errno = 0;
       int rcv_clock_offs_appl_int = -99;
       rcv_clock_offs_appl_int = std::strtol(line, &end, 10);
       if ((errno || end == line) ||
-- 
2.43.0


From 6757253f6ce304539cfed99d24483100d0ecab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 049/133] fix: a short RINEX header line is not completed from
 the line before

---
 src/rinex/read_rnx_header.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 5809a66..da57d83 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -58,6 +58,10 @@ int dso::DorisObsRinex::read_header() noexcept {
 
   // read on untill EOH
   while (m_stream && m_stream.getline(line, MAX_HEADER_CHARS)) {
+    // nothing of the previous line should follow a shorter one
+    const int line_sz = std::strlen(line);
+    std::memset(line + line_sz, '\0', MAX_HEADER_CHARS - line_sz);
+
     if (!std::strncmp(line + 60, "SATELLITE NAME", 14)) {
       // SATELLITE NAME; get m_satellite_name (err. code 30)
       tmp_sz = count_length_reverse(line, 59);
-- 
2.43.0


From 4f01808a5ff67cd8cc644deb3c27bad8ce027286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 050/133] fix: an impossible number of observation types is an
 error, not an abort

---
 src/rinex/read_rnx_header.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index da57d83..cf0e217 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -155,11 +155,11 @@ int dso::DorisObsRinex::read_header() noexcept {
       if (*line != 'D')
         return 111;
       obs_types_num = std::strtol(line + 1, &end, 10);
-      if ((errno || end == line + 1) || !obs_types_num) {
+      if ((errno || end == line + 1) || obs_types_num < 1 ||
+          obs_types_num > 12) {
         errno = 0;
         return 112;
       }
-      assert(obs_types_num < 13);
       if (!m_obs_codes.empty())
         m_obs_codes.clear();
       for (int code = 0; code < obs_types_num; code++) {
-- 
2.43.0


From 4443511734ab5b0365a5bc03e848321b08c4ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 051/133] fix: the missing value marker is not divided by the
 scale factor

---
 src/rinex/doris_rinex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index ffcd2e2..54eed2e 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -189,7 +189,8 @@ int dso::DorisObsRinex::read_data_block(
       // index of the observable. If no scale factor for the observable exists,
       // then the m_obs_scale_factors should have an '1' in the corresponding
       // index
-      val /= m_obs_scale_factors[curobs];
+      if (val != OBSERVATION_VALUE_MISSING)
+        val /= m_obs_scale_factors[curobs];
       obsvec_it->m_values.emplace_back(val, flagm1, flagm2);
       ++curobs;
     }
-- 
2.43.0


From 188da2e06b8f42ccbb73d974f7ad2c9a3c2fa641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 052/133] fix: short or missing RINEX data lines are not
 completed from the lines before

---
 src/rinex/doris_rinex.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index 54eed2e..b31d52d 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -2,6 +2,7 @@
 #include "datetime/datetime_read.hpp"
 #include <algorithm>
 #include <cctype>
+#include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
 #include "datetime/datetime_write.hpp"
@@ -132,7 +133,7 @@ void dso::DorisObsRinex::read() {
 int dso::DorisObsRinex::read_data_block(
     dso::RinexDataRecordHeader &hdr,
     std::vector<BeaconObservations> &obsvec) noexcept {
-  static char line[MAX_RECORD_CHARS];
+  char line[MAX_RECORD_CHARS];
   if (!obsvec.empty())
     obsvec.clear();
 
@@ -153,7 +154,11 @@ int dso::DorisObsRinex::read_data_block(
     while (curobs < (int)m_obs_codes.size()) {
       // should we change/get the next line ?
       if (!(curobs % 5)) {
-        m_stream.getline(line, MAX_RECORD_CHARS);
+        if (!m_stream.getline(line, MAX_RECORD_CHARS))
+          return 3;
+        // pad with whitespace, trailing blank fields may be ommited
+        const int line_sz = std::strlen(line);
+        std::memset(line + line_sz, ' ', MAX_RECORD_CHARS - line_sz);
         // if this is the first data line for the beacon, get its code
         if (!curline) {
           if ((*line) != 'D')
-- 
2.43.0


From 1cf432236f78b5a2ea3999322da059ea326cd481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 053/133] fix: a RINEX data line that is no continuation line
 is not taken for one

---
 src/rinex/doris_rinex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index b31d52d..c559967 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -164,6 +164,8 @@ int dso::DorisObsRinex::read_data_block(
           if ((*line) != 'D')
             return 1;
           std::memcpy(obsvec_it->m_beacon_id, line, 3);
+        } else if (std::strncmp(line, "   ", 3)) {
+          return 4; // not a continuation line
         }
         ++curline;
       }
-- 
2.43.0


From e3162d5c1f59abf5a6e4731f5b6827fc64501d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 054/133] fix: a partly numeric RINEX observation is an error

---
 src/rinex/doris_rinex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index c559967..1f02b00 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -189,6 +189,10 @@ int dso::DorisObsRinex::read_data_block(
         if (end == buf)
           return 2;
       }
+      // nothing but whitespace may follow the value
+      while (*end)
+        if (!isspace(*end++))
+          return 2;
       // push value to the current BeaconObservations instance (in-place)
       // WAIT! check if we have a scale factor for the observable (note that
       // the m_obs_scale_factors are in one-to-one correspondance with the
-- 
2.43.0


From 4fd5dfaa34f1c09e32df8feceae4b48a242057c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 055/133] fix: an epoch line without the optional receiver
 clock offset is not read past its end nor refused

---
 src/rinex/doris_rinex.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index 1f02b00..de1d760 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -253,6 +253,13 @@ int dso::DorisObsRinex::resolve_data_epoch(
   if (*line != '>')
     return 1; // must start with '>' character
 
+  // trailing (optional) fields may be ommited, pad with whitespace
+  char pline[MAX_RECORD_CHARS];
+  std::memset(pline, ' ', sizeof pline);
+  std::memcpy(pline, line, strnlen(line, sizeof pline - 1));
+  pline[sizeof pline - 1] = '\0';
+  line = pline;
+
   char *end;
   int status = 0;
 
@@ -307,7 +314,9 @@ int dso::DorisObsRinex::resolve_data_epoch(
   }
 
   hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
-  if (errno || end == line + 56) {
+  if (!has_clock_offset && end == line + 56) {
+    hdr.m_clock_flag = 0; // ommited, along with the clock offset
+  } else if (errno || end == line + 56) {
     errno = 0;
     status = status ? status : 6;
   }
-- 
2.43.0


From 8b9cde03137e35ccb3281222fb71640bf592dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 056/133] fix: zenith angles outside the Alcatel table are
 flagged as out of bounds

---
 src/antenna_pcv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index d3e2c0a..6096076 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -49,8 +49,8 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
     const double angle = dso::rad2deg<double>(zenith);
     out_of_bounds = 0;
     if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
-      return 0e0;
       out_of_bounds = 1;
+      return 0e0;
     }
     int index = std::floor(angle / 5e0);
 #ifdef DEBUG
-- 
2.43.0


From a4b5406c4e960a1d2cede761b90a659c2747b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 057/133] fix: the phase correction at a zenith angle of 90
 degrees is not read past the table's end

---
 src/antenna_pcv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index 6096076..38c085b 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -53,6 +53,8 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    if (index > 17) // the last interval includes its end
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -106,6 +108,8 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    if (index > 17) // the last interval includes its end
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
@@ -158,6 +162,8 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    if (index > 17) // the last interval includes its end
+      index = 17;
 #ifdef DEBUG
     assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
 #endif
-- 
2.43.0


From f561c9d401f54affd2b36709f053d1afface063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 058/133] fix: a blank RINEX header field is not read past its
 start

---
 src/rinex/read_rnx_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index cf0e217..c5a5439 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -17,7 +17,7 @@
 /// str="                       ", from=22, return value=0
 /// str=" a                     ", from=22, return value=2
 int count_length_reverse(const char *str, int from) noexcept {
-  while (*(str + from) == ' ' && from >= 0)
+  while (from >= 0 && *(str + from) == ' ')
     --from;
   return ++from;
 }
-- 
2.43.0


From 3a5a83abcb888420e72d60179236e9b5ec5cc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 059/133] fix: a RINEX header without observation types is an
 error

---
 src/rinex/read_rnx_header.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index c5a5439..ae39c17 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -364,7 +364,8 @@ int dso::DorisObsRinex::read_header() noexcept {
     m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
 
   // final checks on collected info
-  if (m_obs_codes.size() != m_obs_scale_factors.size() ||
+  if (m_obs_codes.empty() ||
+      m_obs_codes.size() != m_obs_scale_factors.size() ||
       obs_types_num != static_cast<int>(m_obs_codes.size()))
     return -3;
   if (num_stations != static_cast<int>(m_stations.size()) ||
-- 
2.43.0


From a6aa45666a0354c3f7d47c6346ab1453b0241fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 060/133] fix: a scale factor for all types ahead of the
 observation types is an error, not ignored

---
 src/rinex/read_rnx_header.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index ae39c17..6c13aea 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -202,6 +202,9 @@ int dso::DorisObsRinex::read_header() noexcept {
       // SYS / SCALE FACTOR; get/fill m_obs_scale_factors
       if (*line != 'D')
         return 141;
+      // the factors refer to the observation types, these must be known
+      if (m_obs_codes.empty())
+        return 147;
       // create a vector of 1's with a size equal to m_obs_codes (unless a
       // previous line already did). the two vectors will have a one-to-one
       // correspondance
-- 
2.43.0


From 583ee2cd18b6b5d522514ab8638cdfd8541c77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 061/133] fix: the ionosphere-free phase centre is not computed
 from temporaries that are gone

---
 src/doris_system_info.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 7f0dbec..cdbb676 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -161,14 +161,16 @@ struct BeaconStation {
   ///        position estimation using DORIS RINEX data", section 2.5.7
   Eigen::Matrix<double, 3, 1> iono_free_phase_center() const noexcept {
     // the 2GHz Phase center in [mm]
-    const auto r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_2Ghz =
+        AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
                             (type() == GroundAntennaType::Alcatel) +
                         AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *
                             (type() == GroundAntennaType::Starec_B ||
                              type() == GroundAntennaType::Starec_C);
 
     // the 400MHz Phase center in [mm]
-    const auto r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_400MHz =
+        AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
                               (type() == GroundAntennaType::Alcatel) +
                           AntennaOffset<GroundAntennaType::Starec_B, 2>::pco() *
                               (type() == GroundAntennaType::Starec_B ||
-- 
2.43.0


From 13a19bef3aea63a3a4e78aa6ef66acc1684659a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 062/133] fix: tropospheric a-priori values for all beacons
 reach the slots of all beacons (linear clock model)

---
 src/filters/filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
-- 
2.43.0


From 6e8313a4b7b24d7fa8c83742eb7c0ffac5076408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 063/133] fix: a kernel is not taken for loaded because a
 loaded file's name begins with its own (or not, because it is long)

---
 src/planets/cspice_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/planets/cspice_utils.cpp b/src/planets/cspice_utils.cpp
index 6db24e9..d920801 100644
--- a/src/planets/cspice_utils.cpp
+++ b/src/planets/cspice_utils.cpp
@@ -1,7 +1,7 @@
 #include "planetpos.hpp"
 #include <cstring>
 
-#define  FILLEN   128                                                           
+#define  FILLEN   256                                                           
 #define  TYPLEN   32                                                            
 #define  SRCLEN   128
 
@@ -20,7 +20,7 @@ int dso::cspice::load_if_unloaded_lsk(const char *lsk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, lsk_kernel, std::strlen(lsk_kernel))) return 0;
+      if (!std::strcmp(file, lsk_kernel)) return 0;
     }
   }
 
@@ -42,7 +42,7 @@ int dso::cspice::load_if_unloaded_spk(const char *spk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "spk", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, spk_kernel, std::strlen(spk_kernel))) return 0;
+      if (!std::strcmp(file, spk_kernel)) return 0;
     }
   }
 
@@ -64,7 +64,7 @@ int dso::cspice::load_if_unloaded_pck(const char *pck_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "pck", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, pck_kernel, std::strlen(pck_kernel))) return 0;
+      if (!std::strcmp(file, pck_kernel)) return 0;
     }
   }
 
-- 
2.43.0


From c62677f2ead9fbc277517f12ff4ca9876be2bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 064/133] fix: text PCK kernels are found among the loaded ones
 and not loaded again

---
 src/planets/cspice_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planets/cspice_utils.cpp b/src/planets/cspice_utils.cpp
index d920801..d27bf39 100644
--- a/src/planets/cspice_utils.cpp
+++ b/src/planets/cspice_utils.cpp
@@ -57,12 +57,12 @@ int dso::cspice::load_if_unloaded_pck(const char *pck_kernel) noexcept {
   SpiceChar source[SRCLEN];
   SpiceBoolean found;
 
-  // get number of spk kernels loaded ... 
-  ktotal_c("pck", &count);
+  // get number of pck kernels loaded (text pck kernels are of type "text") ... 
+  ktotal_c("pck text", &count);
 
   if (count) {
     for (which = 0; which < count; which++) {
-      kdata_c(which, "pck", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
+      kdata_c(which, "pck text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
       if (!std::strcmp(file, pck_kernel)) return 0;
     }
-- 
2.43.0


From dacb0cc04b8ca26121a8295eb773e86510d4abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 065/133] fix: the three-character beacon codes of Doppler
 counts are not compared and printed as strings

---
 src/doris/extract_doppler_count.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 598f730..e2b57e4 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -21,7 +21,7 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
 
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     if (it != data.end()) {
       double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
@@ -30,7 +30,7 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
       double dsec = static_cast<double>(tdsec.as_underlying_type()) /
                     dso::nanoseconds::sec_factor<double>();
 
-      printf("%s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
+      printf("%.3s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
     }
   }
 
@@ -47,7 +47,7 @@ int update(const std::vector<dso::BeaconObservations> &obsvec,
     newid = newobs.m_beacon_id;
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     // if not, append
     if (it == data.end()) {
-- 
2.43.0


From f710254d287a3a8aa646a8b4bcb308c1a658af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 066/133] fix: Doppler counts are formed from the L1 and L2
 columns, wherever they are

---
 src/doris/extract_doppler_count.cpp | 34 +++++++++++++----------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index e2b57e4..44c63f0 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -14,7 +14,7 @@ struct BeaconObservationData {
 
 int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
     const dso::datetime<dso::nanoseconds> &t,
-    std::vector<BeaconObservationData> &data) noexcept {
+    std::vector<BeaconObservationData> &data, int l1_idx, int l2_idx) noexcept {
   const char *newid = nullptr;
   for (const auto &newobs : obsvec) {
     newid = newobs.m_beacon_id;
@@ -24,8 +24,8 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
                              return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     if (it != data.end()) {
-      double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
-      double dl2 = newobs.m_values[1].m_value - it->obs.m_values[1].m_value;
+      double dl1 = newobs.m_values[l1_idx].m_value - it->obs.m_values[l1_idx].m_value;
+      double dl2 = newobs.m_values[l2_idx].m_value - it->obs.m_values[l2_idx].m_value;
       auto tdsec = t.delta_sec(it->t);
       double dsec = static_cast<double>(tdsec.as_underlying_type()) /
                     dso::nanoseconds::sec_factor<double>();
@@ -66,23 +66,19 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
 
   long parsed_blocks = 0;
 
-  /* find indexes of L1 and L2 in this RINEX's observation codes vector
-  auto l1_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 1}); if (l1_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L1 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
-  }
-  auto l2_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 2}); if (l2_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L2 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
+  // find indexes of L1 and L2 in this RINEX's observation codes vector
+  const int l1_idx =
+      get_observation_code_index(ObservationCode{ObservationType::phase, 1});
+  const int l2_idx =
+      get_observation_code_index(ObservationCode{ObservationType::phase, 2});
+  if (l1_idx < 0 || l2_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] Failed to find L1 and L2 in RINEX\'s observation types "
+            "(traceback: %s)\n",
+            __func__);
+    return 1;
   }
 
-  // index of L1 and L2 in the m_obs_codes vector
-  int l1_idx = std::distance(m_obs_codes.cbegin(), l1_ptr);
-  int l2_idx = std::distance(m_obs_codes.cbegin(), l2_ptr);
-  */
-
   // vector of beacon observations; last observation extracted for each beacon
   std::vector<BeaconObservationData> latest_data;
   latest_data.reserve(m_stations.size());
@@ -135,7 +131,7 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
 
     // compute Doppler counts for each beacon (if a previous observation is
     // preseent)
-    if (compute_ndop(obsvec, hdr.m_epoch, latest_data)) {
+    if (compute_ndop(obsvec, hdr.m_epoch, latest_data, l1_idx, l2_idx)) {
       fprintf(stderr, "[ERROR] Failed computing ndop (traceback: %s)\n",
               __func__);
       return 5;
-- 
2.43.0


From 20b92290407dbd907472f1340b17b2f3e1277c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 067/133] fix: no Doppler count is formed from a missing phase

---
 src/doris/extract_doppler_count.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 44c63f0..7a623a8 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -12,6 +12,12 @@ struct BeaconObservationData {
   dso::datetime<dso::nanoseconds> t;
 };
 
+bool has_phases(const dso::BeaconObservations &obs, int l1_idx,
+                int l2_idx) noexcept {
+  return obs.m_values[l1_idx].m_value != dso::OBSERVATION_VALUE_MISSING &&
+         obs.m_values[l2_idx].m_value != dso::OBSERVATION_VALUE_MISSING;
+}
+
 int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
     const dso::datetime<dso::nanoseconds> &t,
     std::vector<BeaconObservationData> &data, int l1_idx, int l2_idx) noexcept {
@@ -23,7 +29,8 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
                            [&](const BeaconObservationData &bod) noexcept {
                              return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
-    if (it != data.end()) {
+    if (it != data.end() && has_phases(newobs, l1_idx, l2_idx) &&
+        has_phases(it->obs, l1_idx, l2_idx)) {
       double dl1 = newobs.m_values[l1_idx].m_value - it->obs.m_values[l1_idx].m_value;
       double dl2 = newobs.m_values[l2_idx].m_value - it->obs.m_values[l2_idx].m_value;
       auto tdsec = t.delta_sec(it->t);
-- 
2.43.0


From cab253d7995884b65f096c330dcf5791465cc0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 068/133] fix: Doppler counts can be formed after the file has
 been read to its end

---
 src/doris/extract_doppler_count.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 7a623a8..1d2e7f8 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -90,6 +90,7 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
   std::vector<BeaconObservationData> latest_data;
   latest_data.reserve(m_stations.size());
 
+  m_stream.clear();
   m_stream.seekg(m_end_of_head);
   char line[MAX_RECORD_CHARS];
   RinexDataRecordHeader hdr;
-- 
2.43.0


From 0906776a2de4d2eb430235565b79eea52df25426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 069/133] fix: the last, incomplete block of frequency offsets
 is formed of its own readings, on the same time scale as the others

---
 src/rinex/fit_rfo.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 7879a49..e39b1b1 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -102,11 +102,10 @@ int parse_rinex_rfos(const char *fnrnx,
     return 1;
   }
 
-  --cval;
   // add any reamaining data in the buffer
-  if ((cval % every) != every - 1) {
+  if (cval % every) {
     const int j = cval % every;
-    b(idx) = std::reduce(fs.begin(), fs.end()+j, 0e0) / j;
+    b(idx) = std::reduce(fs.begin(), fs.begin()+j, 0e0) / j;
     
     const auto dsec = tend.delta_sec(t0);
     const dso::nanoseconds half =
@@ -116,7 +115,7 @@ int parse_rinex_rfos(const char *fnrnx,
     
     // difference in time (aka from tref)
     A(idx,0) = 1e0;
-    const double dt = t.delta_date(tref).as_mjd();
+    const double dt = fit.deltax(t,tref);
     A(idx,1) = dt;
     for (int i = 1; i < poly_order; i++)
       A(idx, i + 1) = A(idx, i) * dt;
-- 
2.43.0


From 338ca72e019b42ebedaa9473fca50e48b3cbb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 070/133] fix: blocks of one frequency offset reading have the
 epoch of their reading

---
 src/rinex/fit_rfo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index e39b1b1..9f2f0bc 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -62,6 +62,9 @@ int parse_rinex_rfos(const char *fnrnx,
       // store current date
       tend = (use_tai) ? tl1 : tproper;
       
+      // first value of a block
+      if (!(cval % every)) t0 = tend;
+      
       // check if we reached every values
       if (!((cval + 1) % every)) {
         // we did, compute data points and add to matrices
@@ -82,8 +85,6 @@ int parse_rinex_rfos(const char *fnrnx,
           A(idx, i+1) = A(idx, i) * dt;
         // increase matrix index
         ++idx;
-      } else if (!(cval % every)) {
-        t0 = tend;
       }
 
       ++cval;
-- 
2.43.0


From 1944469fa91b56a535976fbbe45c7dceec89506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 071/133] fix: missing frequency offset readings are not used

---
 src/rinex/fit_rfo.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 9f2f0bc..606947d 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -33,6 +33,13 @@ int parse_rinex_rfos(const char *fnrnx,
   const int f_idx = rnx.get_observation_code_index(
       dso::ObservationCode{dso::ObservationType::frequency_offset});
 
+  if (f_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] No \'F\' values in RINEX %s (traceback: %s)\n", fnrnx,
+            __func__);
+    return 1;
+  }
+
   // get an iterator to the RINEXs data blocks
   dso::RinexDataBlockIterator it(&rnx);
 
@@ -49,6 +56,11 @@ int parse_rinex_rfos(const char *fnrnx,
 
     if (tl1 >= start && tl1 < end) {
 
+      // nothing to use in this block
+      if (it.cblock.empty() || it.cblock.begin()->m_values[f_idx].m_value ==
+                                   dso::OBSERVATION_VALUE_MISSING)
+        continue;
+
       // current proper time (aka tau)
       const auto tproper = it.proper_time();
 
-- 
2.43.0


From c16be085230db78439c949dc1b844aa0ee08665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 072/133] fix: the frequency offset fit is not made of no
 readings, nor evaluated from temporaries that are gone

---
 src/rinex/fit_rfo.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 606947d..9ca55d9 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -195,13 +195,20 @@ int dso::fit_relative_frequency_offset(
 
   // OK! all RINEX files parsed. We now need to resize the matrices, given
   // their true sizes
+  if (!index) {
+    fprintf(stderr,
+            "[ERROR] No Receiver Frequency Offset values to fit (traceback: "
+            "%s)\n",
+            __func__);
+    return 1;
+  }
   b.conservativeResize(index, Eigen::NoChange);
   A.conservativeResize(index, Eigen::NoChange);
 
   printf("Solving LS with b=%ldx%ld and A=%ldx%ld\n", b.rows(), b.cols(), A.rows(), A.cols());
 
   // Solve the LS problem
-  const auto y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
+  const Eigen::VectorXd y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
 
   // assign to the (returned) model
   fit.xref = tref;
-- 
2.43.0


From aa8871f033e1bb28df92b87512b16cbb8d30c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 073/133] fix: frequency offsets at a higher rate than expected
 are not written out of bounds

---
 src/rinex/fit_rfo.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 9ca55d9..04d2fc0 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -8,6 +8,14 @@ typedef dso::datetime<dso::nanoseconds> Datetime;
 // Reminder: in the RINEX files, the F value (aka relative frequency offset for
 // the receiver's oscillator) is given in units: 1e-11
 
+// make sure there is a row idx (the initial size is only an estimate)
+static void make_room(Eigen::MatrixXd &A, Eigen::VectorXd &b, unsigned idx) {
+  if (idx >= b.rows()) {
+    b.conservativeResize(2 * idx + 1, Eigen::NoChange);
+    A.conservativeResize(2 * idx + 1, Eigen::NoChange);
+  }
+}
+
 int parse_rinex_rfos(const char *fnrnx, 
     bool use_tai,
     int every,
@@ -80,6 +88,7 @@ int parse_rinex_rfos(const char *fnrnx,
       // check if we reached every values
       if (!((cval + 1) % every)) {
         // we did, compute data points and add to matrices
+        make_room(A, b, idx);
         b(idx) = std::reduce(fs.begin(), fs.end(), 0e0) / every;
 
         // midpoint in time, between t0 and tend
@@ -118,6 +127,7 @@ int parse_rinex_rfos(const char *fnrnx,
   // add any reamaining data in the buffer
   if (cval % every) {
     const int j = cval % every;
+    make_room(A, b, idx);
     b(idx) = std::reduce(fs.begin(), fs.begin()+j, 0e0) / j;
     
     const auto dsec = tend.delta_sec(t0);
-- 
2.43.0


From 9ac5a480537e89706c76fefdf2f0040045a73437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 074/133] fix: an unreadable RINEX file is an error of the
 frequency offset fit, not an abort

---
 src/rinex/fit_rfo.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 04d2fc0..ade5ae4 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -25,7 +25,7 @@ int parse_rinex_rfos(const char *fnrnx,
     Eigen::MatrixXd &A,
     unsigned &idx,
     const Datetime &start,
-    const Datetime &end) noexcept {
+    const Datetime &end) {
 
   // polynomial order
   const int poly_order = fit.order();
@@ -193,8 +193,15 @@ int dso::fit_relative_frequency_offset(
   unsigned index = 0;
   dso::datetime<dso::nanoseconds> tref = dso::datetime<dso::nanoseconds>::min();
   for (const auto sptr : fns) {
-    if (parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
-                         start, end)) {
+    int error = 1;
+    try {
+      error = parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
+                               start, end);
+    } catch (std::exception &e) {
+      // e.g. the RINEX could not be opened, or its header could not be read
+      fprintf(stderr, "[ERROR] %s (traceback: %s)\n", e.what(), __func__);
+    }
+    if (error) {
       fprintf(stderr,
               "[ERROR] Failed fitting Receiver Frequency Offset values! failed "
               "at RINEX file %s (traceback: %s)\n",
-- 
2.43.0


From 5408a34f720182b95e8fcf17e6d2f433b43a74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 075/133] fix: an empty interval of the frequency offset fit
 does not ask for matrices of a negative size

---
 src/rinex/fit_rfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index ade5ae4..7777a2b 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -180,6 +180,9 @@ int dso::fit_relative_frequency_offset(
   // So, this is our educated guess about the number of points we will be 
   // using, for the whole time-span
   long num_pts = NDay * num_days + 10 /* just to be sure ... */;
+  // (the interval requested may be empty)
+  if (num_pts < 10)
+    num_pts = 10;
 
   // how many columns in design matrix ?
   const int M = fit.order() + 1;
-- 
2.43.0


From 2f6735f7872c4b1928b36e75d3d55fe2bb1dbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 076/133] fix: an errno left over from elsewhere does not make
 a beacon height unreadable

---
 src/beacon_tbl/beacon_tbl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 100727b..8fdbe7b 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -22,6 +22,7 @@ dso::BeaconInformationTable::load_to_memmory(
     std::memcpy(name, line, 4 * sizeof(char));
     const auto from = dso::strptime_ymd_hms<dso::nanoseconds>(line + 5, &end);
     const auto to = dso::strptime_ymd_hms<dso::nanoseconds>(line + 24, &end);
+    errno = 0;
     double height = std::strtod(line + 45, &end);
     if (errno || end == line + 45) {
       fprintf(stderr,
-- 
2.43.0


From 7ceae86e04c3525f5795e6c36422b36ca2c05a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 077/133] fix: a short beacon information line is not completed
 from the line before

---
 src/beacon_tbl/beacon_tbl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 8fdbe7b..4ee3ae0 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -19,6 +19,13 @@ dso::BeaconInformationTable::load_to_memmory(
 
   char *end;
   while (fin.getline(line, 256)) {
+    if (std::strlen(line) <= 45) { // what follows is left from other lines
+      fprintf(stderr,
+              "ERROR. Incomplete beacon information line \'%s\' "
+              "(traceback: %s)\n",
+              line, __func__);
+      throw std::runtime_error("Parse file error");
+    }
     std::memcpy(name, line, 4 * sizeof(char));
     const auto from = dso::strptime_ymd_hms<dso::nanoseconds>(line + 5, &end);
     const auto to = dso::strptime_ymd_hms<dso::nanoseconds>(line + 24, &end);
-- 
2.43.0


From b2a95e75f60cde5e9517952bf90bd596b5f2b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 078/133] fix: an over-long beacon information line does not
 end the list without an error

---
 src/beacon_tbl/beacon_tbl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 4ee3ae0..d65fd7f 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -43,5 +43,12 @@ dso::BeaconInformationTable::load_to_memmory(
     }
   }
 
+  // stopped by a line that is too long
+  if (!fin.eof()) {
+    fprintf(stderr, "ERROR. Failed reading file %s (traceback: %s)\n", fn_,
+            __func__);
+    throw std::runtime_error("Read file error");
+  }
+
   return vec;
 }
\ No newline at end of file
-- 
2.43.0


From 2c4b4292b34d712df4ab1fe2b14cead60b4869da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 079/133] fix: sites missing from the SINEX file do not count
 when their estimates are looked for

---
 src/ids/get_pdop_crd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 06f9ad8..d3f8976 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -143,7 +143,7 @@ int dso::extrapolate_sinex_coordinates(
 
   // get the solution estimates for the sites
   error = snx.parse_block_solution_estimate(est_vec, site_vec);
-  if (error || (int)est_vec.size() < num_stations * 6) {
+  if (error || est_vec.size() < site_vec.size() * 6) {
     fprintf(stderr,
             "[ERROR] Failed to collect estimates for given sites; SINEX file "
             "is %s "
-- 
2.43.0


From ab5add5c4a982841070d7d0b926e232d8f86edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 080/133] fix: a site whose coordinates cannot be extrapolated
 is an error, unless missing sites are allowed

---
 src/ids/get_pdop_crd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index d3f8976..5631b30 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -169,6 +169,8 @@ int dso::extrapolate_sinex_coordinates(
                 "[ERROR] Failed to extrapolate coordinates for site %s from "
                 "SINEX %s (traceback: %s)\n",
                 sid, snx.filename().c_str(), __func__);
+        if (missing_site_is_error)
+          return 3;
       } else {
         std::memcpy(result_array[result_size].id, sid, 4 * sizeof(char));
         result_array[result_size].x = pos[0];
-- 
2.43.0


From c90adc505310184325b32e112ba6e2278574b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 081/133] fix: the name of a missing velocity estimate is not
 printed past its end

---
 src/ids/get_pdop_crd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 5631b30..842d295 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -10,7 +10,7 @@ int extrapolate_coordinates(
   const char *components[] = {"STAX", "STAY", "STAZ"};
   for (int i = 0; i < 3; i++) {
     const char *sta = components[i];
-    char vel[4] = "VEL";
+    char vel[5] = "VEL";
     vel[3] = sta[3];
     auto pos_sx =
         std::find_if(estimates.begin(), estimates.end(),
-- 
2.43.0


From d0d768b1289fd7953b05bffb9ed68ef3db732e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 082/133] fix: a space weather window that reaches past the end
 of the file is an error, and the next day is not skipped

---
 src/var/celestrak_swdata.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index 5e66737..d53758e 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -275,21 +275,22 @@ int dso::utils::celestrak::details::parse_csv_for_date(
               __func__, line, error);
       return parse_error;
     }
+    // that was the last day needed; leave the following line to be read next
+    if (++cdi == days_to_resolve)
+      break;
     // read in next line (should be next day)
-    if (fin.getline(line, MAX_SW_CHARS)) {
-      error = resolve_csv_line_date(line, cmjd);
-    } else {
-      return error;
-    }
-    if (cmjd != start_mjd + dso::modified_julian_day{cdi + 1}) {
+    if (!fin.getline(line, MAX_SW_CHARS))
+      return fin.eof() ? eof_reached : parse_error;
+    if (resolve_csv_line_date(line, cmjd) ||
+        cmjd != start_mjd + dso::modified_julian_day{cdi}) {
       fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
               fncsv);
       return parse_error;
     }
-    ++cdi;
   }
 
-  // set fpos
+  // set fpos (the last line of the file may have no newline character)
+  fin.clear();
   fpos = fin.tellg();
 
   return 0;
-- 
2.43.0


From 572096ae9e9a87c49f9f44f87bf48d6423e376f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 083/133] fix: a space weather file with no or an unreadable
 line at the last position is read from the top

---
 src/var/celestrak_swdata.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index d53758e..ae8ed90 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -233,8 +233,11 @@ int dso::utils::celestrak::details::parse_csv_for_date(
 
   // read first data line; if record_date > start_mjd data, the target date is
   // not included in the file ...
-  fin.getline(line, MAX_SW_CHARS);
-  if (resolve_csv_line_date(line, cmjd)) {
+  if (!fin.getline(line, MAX_SW_CHARS) || resolve_csv_line_date(line, cmjd)) {
+    // we were probably too far in the file; try once more, from the top
+    if (fpos2)
+      return parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
+                                days_after);
     fprintf(stderr, "ERROR@%s: Failed parsing SW csv line %s\n", __func__,
             line);
     return parse_error;
-- 
2.43.0


From 6fc54bde47ebff9256ad0905db0adee9aefb5d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 084/133] fix: an invalid date in a space weather file is an
 error, not an abort or another day

---
 src/var/celestrak_swdata.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index ae8ed90..48cadaf 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -2,6 +2,7 @@
 #include <charconv>
 #include <cstdio>
 #include <cstring>
+#include <exception>
 #include <datetime/dtfund.hpp>
 #include <fstream>
 #include <limits>
@@ -132,24 +133,32 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
 int dso::utils::celestrak::details::resolve_csv_line_date(
     const char *line, dso::modified_julian_day &mjd) noexcept {
   // date format: 2017-01-10
+  if (std::strlen(line) < 10 || line[4] != '-' || line[7] != '-')
+    return 1;
   int year, month, day;
   // year ...
   auto pec = std::from_chars(line, line + 4, year);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 4)
     return 1;
   // month ...
   pec = std::from_chars(line + 5, line + 7, month);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 7)
     return 1;
   // day ...
   pec = std::from_chars(line + 8, line + 10, day);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 10)
     return 1;
 
   // to datetime ... (note that this is UTC)
-  const dso::datetime<dso::seconds> d(dso::year(year), dso::month(month),
-                                      dso::day_of_month(day), dso::seconds(0));
-  mjd = d.mjd();
+  try {
+    const dso::datetime<dso::seconds> d(dso::year(year), dso::month(month),
+                                        dso::day_of_month(day),
+                                        dso::seconds(0));
+    mjd = d.mjd();
+  } catch (std::exception &) {
+    // not a calendar date
+    return 1;
+  }
 
   // all done
   return 0;
-- 
2.43.0


From 3a8701a6ef6414a8c93e2b468d254d9ccbf5c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 085/133] fix: a short space weather line is not completed from
 the line before, and blank columns are not skipped twice

---
 src/var/celestrak_swdata.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index 48cadaf..a38fb3a 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -18,6 +18,15 @@ constexpr const char header[] =
     "AP6,AP7,AP8,AP_AVG,CP,C9,ISN,F10.7_OBS,F10.7_ADJ,F10.7_DATA_TYPE,F10.7_"
     "OBS_CENTER81,F10.7_OBS_LAST81,F10.7_ADJ_CENTER81,F10.7_ADJ_LAST81";
 
+// Skip the next n columns (aka n ',' chars), but not the end of the string
+static const char *skip_columns(const char *c, int n) noexcept {
+  while (*c && n) {
+    if (*c++ == ',')
+      --n;
+  }
+  return c;
+}
+
 // F10.7_OBS -> 25
 // F10.7_ADJ -> 26
 // F10.7_OBS_CENTER81 -> 28
@@ -38,18 +47,13 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   const char *c = line;
 
   // find and skip 12 ',' chars
-  int commas = 0;
-  while (*c++ && commas < 12) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
+  c = skip_columns(c, 12);
   if (!*c) {
     return 2;
   }
 
   // last character in the string, the limit for conversions
-  const char *last = line + sz - 1;
+  const char *last = line + sz;
 
   // resolve the 8 hourly AP's (these are ints)
   int i = 0;
@@ -73,12 +77,7 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   // we are now at column CP; skip and, and do so also for columns:
   // C9, ISN
   // Go three ',' forward
-  commas = 0;
-  while (*c++ && commas < 3) {
-    if (*c == ',') {
-      ++commas;
-    }
-  }
+  c = skip_columns(c, 3);
   if (!*c) {
     return 12;
   }
@@ -98,6 +97,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   }
 
   // we are now at the F10.7_DATA_TYPE; just copy three chars
+  if (std::strlen(c) < 4)
+    return 15;
   std::memcpy(flux_data.flag, c, 3 * sizeof(char));
   c += 3;
   if (*c++ != ',')
-- 
2.43.0


From b038538136b715e4dfc7a0bc45b5dd52e99c1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 086/133] fix: after a failed update of the atmosphere feed,
 data of another day are not used

---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index 1240a0c..daf99c1 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -184,8 +184,11 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
     }
   } else {
     error = 0;
+    // if the data cannot be read, they must be read afresh next time
+    const auto old_mjd = mjd_;
+    mjd_ = dso::modified_julian_day::min();
     // if the new date is just one day ahead, quickly update data arrays ...
-    if (mjd_ + dso::modified_julian_day(1) == new_mjd) {
+    if (old_mjd + dso::modified_julian_day(1) == new_mjd) {
       error = dso::utils::celestrak::details::get_next(new_mjd, fncsv_,
                                                        flux_data_, 4, fpos);
     } else {
-- 
2.43.0


From ea8e2be8d10123364f050a88e2bceaf10578d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 087/133] fix: the atmosphere feed updates any instance it is
 given, also within a 3-hour interval or back to an earlier one

---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index daf99c1..8fa34df 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -171,17 +171,9 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
   new_mjd += dso::modified_julian_day((int)(in.sec / 86400e0));
 
   if (new_mjd == mjd_) {
-    // date not changed. let's see if the 3-hour interval changed
-    if (ihours(in.sec) / 3 == chi) {
-      // perfect! nothing to do!
-      return 0;
-    } else {
-      // shit, hour index changed
-#ifdef DEBUG
-      assert(chi != 7);
-#endif
-      error = this->init(in);
-    }
+    // date not changed; the 3-hour interval, or the instance to be updated may
+    // have
+    error = this->init(in);
   } else {
     error = 0;
     // if the data cannot be read, they must be read afresh next time
-- 
2.43.0


From 065538ee1549f192f675c251f81f4891f6c31fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 088/133] fix: seconds of another day do not lead the
 atmosphere feed out of bounds

---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 32 ++++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index 8fa34df..a0ea94b 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -1,33 +1,44 @@
 #include "nrlmsise00.hpp"
 #include <datetime/dtfund.hpp>
 #include <stdexcept>
+#include <cmath>
 #include <cstring>
 #ifdef DEBUG
 #include <cstdio>
 #endif
 
+/// @brief The day of the date/time in in (seconds may be outside [0, 86400))
+static dso::modified_julian_day
+target_day(const dso::nrlmsise00::detail::InParamsCore &in) {
+  dso::modified_julian_day mjd(
+      dso::ydoy2mjd(dso::year(in.year), dso::day_of_year(in.doy)));
+  mjd += dso::modified_julian_day((int)std::floor(in.sec / 86400e0));
+  return mjd;
+}
+
+/// @brief Hour of day (seconds may be outside [0, 86400))
+static int ihours(double secday) noexcept {
+  constexpr const int sec_in_hour = 60 * 60;
+  secday -= 86400e0 * std::floor(secday / 86400e0);
+  const int hours = static_cast<int>(secday) / sec_in_hour;
+  return (hours > 23) ? 23 : hours;
+}
+
 dso::nrlmsise00::detail::Nrlmsise00DataFeed::Nrlmsise00DataFeed(
     const char *fncsv, dso::nrlmsise00::detail::InParamsCore &in)
     {
       std::strcpy(fncsv_,fncsv);
 
-  const dso::datetime<dso::milliseconds> t(dso::datetime<dso::milliseconds>(
-      dso::year(in.year), dso::day_of_year(in.doy), dso::milliseconds(0)));
+  mjd_ = target_day(in);
   if (dso::utils::celestrak::details::parse_csv_for_date(
-          t.mjd(), fncsv, flux_data_, fpos, 3, 0)) {
+          mjd_, fncsv, flux_data_, fpos, 3, 0)) {
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
   }
 
-  mjd_ = t.mjd();
-
   if (init(in))
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
 }
 
-int ihours(double secday) noexcept {
-  constexpr const int sec_in_hour = 60 * 60;
-  return static_cast<int>(secday) / sec_in_hour;
-}
 
 int dso::nrlmsise00::detail::Nrlmsise00DataFeed::init(
     dso::nrlmsise00::detail::InParamsCore &in) noexcept {
@@ -167,8 +178,7 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
     dso::nrlmsise00::detail::InParamsCore &in) noexcept {
 
   int error = 0;
-  dso::modified_julian_day new_mjd(dso::ydoy2mjd(in.year, in.doy));
-  new_mjd += dso::modified_julian_day((int)(in.sec / 86400e0));
+  const dso::modified_julian_day new_mjd(target_day(in));
 
   if (new_mjd == mjd_) {
     // date not changed; the 3-hour interval, or the instance to be updated may
-- 
2.43.0


From fa3309c1f26e1937cf105c9416d52f89c35e7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 089/133] fix: a long file name does not overflow the
 atmosphere feed

---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index a0ea94b..7528d5b 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -27,6 +27,8 @@ static int ihours(double secday) noexcept {
 dso::nrlmsise00::detail::Nrlmsise00DataFeed::Nrlmsise00DataFeed(
     const char *fncsv, dso::nrlmsise00::detail::InParamsCore &in)
     {
+      if (std::strlen(fncsv) >= sizeof(fncsv_))
+        throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
       std::strcpy(fncsv_,fncsv);
 
   mjd_ = target_day(in);
-- 
2.43.0


From 805d0aee97c4222bd7d6aedc6e92137a25431faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 090/133] fix: scale height of the atmosphere layer from 180 to
 200 km

---
 src/atmosphere/exponential_atmospheric_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..86434bb 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
-- 
2.43.0


From 0264f8e94026e0d3e1e2ee143e6f41cbb64af6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 091/133] fix: NRLMSISE-00 results do not depend on calls made
 through other instances

---
 src/atmosphere/nrlmsise00_glob7s.cpp |  32 +------
 src/atmosphere/nrlmsise00_globe7.cpp | 125 ++++++++++-----------------
 2 files changed, 48 insertions(+), 109 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_glob7s.cpp b/src/atmosphere/nrlmsise00_glob7s.cpp
index 9ca1ce9..9a8e350 100644
--- a/src/atmosphere/nrlmsise00_glob7s.cpp
+++ b/src/atmosphere/nrlmsise00_glob7s.cpp
@@ -14,37 +14,13 @@ double dso::Nrlmsise00::glob7s(const InParamsCore *in, double *pp) noexcept {
 
   // VERSION OF GLOBE FOR LOWER ATMOSPHERE 10/26/99
   constexpr const double pset = 2e0;
-  static int last_doy = -1e0; // last doy used
-  static double p32 = -1e3;
-  static double p18 = -1e3;
-  static double p14 = -1e3;
-  static double p39 = -1e3;
-  static double cd14;
-  static double cd18;
-  static double cd32;
-  static double cd39;
-
   if (std::abs(p[99]) < nearzero)
     p[99] = pset;
 
-  // did day of year change?
-  const bool doy_changed = (int)in->doy - last_doy != 0;
-  if (doy_changed || std::abs(p32 - p[31]) > nearzero)
-    cd32 = std::cos(dr * (doy - p[31]));
-  if (doy_changed || std::abs(p18 - p[17]) > nearzero)
-    cd18 = std::cos(2e0 * dr * (doy - p[17]));
-  if (doy_changed || std::abs(p14 - p[13]) > nearzero)
-    cd14 = std::cos(dr * (doy - p[13]));
-  if (doy_changed || std::abs(p39 - p[38]) > nearzero)
-    cd39 = std::cos(2e0 * dr * (doy - p[38]));
-
-  // update last used doy
-  last_doy = doy;
-
-  p32 = p[31];
-  p18 = p[17];
-  p14 = p[13];
-  p39 = p[39];
+  const double cd32 = std::cos(dr * (doy - p[31]));
+  const double cd18 = std::cos(2e0 * dr * (doy - p[17]));
+  const double cd14 = std::cos(dr * (doy - p[13]));
+  const double cd39 = std::cos(2e0 * dr * (doy - p[38]));
 
   t[0] = p[21] * dfa;
   
diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index bf495eb..df41ba9 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -18,91 +18,54 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   constexpr const double hr = 0.2618e0;
   constexpr const double sr = 7.2722e-5;
 
-  // last latitude (so we don't re-compute legendre polynomials)
-  static double xl = 1000e0;
-  // last used tloc/lst (so we don't recompute trig numbers)
-  static double tll = 1000e0;
-  static double sw9 = 1e0;
-  // last doy used 
-  static int last_doy = -1;
-  static double p14 = -1e3;
-  static double p18 = -1e3;
-  static double p32 = -1e3;
-  static double p39 = -1e3;
-  static double cd14, cd18, cd32, cd39;
-
   double t[14] = {0e0};
-  sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
-
-  if (std::abs(xl - in->glat) > nearzero) {
-    // calculate legendre polynomials
-    const double c = std::sin(dso::deg2rad(in->glat));
-    const double s = std::cos(dso::deg2rad(in->glat));
-    const double c2 = c * c;
-    const double c4 = c2 * c2;
-    const double s2 = s * s;
-    plg[0][1] = c;
-    plg[0][2] = 0.5e0 * (3e0 * c2 - 1e0);
-    plg[0][3] = 0.5e0 * (5e0 * c * c2 - 3e0 * c);
-    plg[0][4] = (35e0 * c4 - 30e0 * c2 + 3e0) / 8e0;
-    plg[0][5] = (63e0 * c2 * c2 * c - 70e0 * c2 * c + 15e0 * c) / 8e0;
-    plg[0][6] = (11e0 * c * plg[0][5] - 5e0 * plg[0][4]) / 6e0;
-    // PLG(8,1) = (13.0_r8*C*PLG(7,1) - d_6*PLG(6,1))/7.0_r8
-    plg[1][1] = s;
-    plg[1][2] = 3e0 * c * s;
-    plg[1][3] = 1.5e0 * (5e0 * c2 - 1e0) * s;
-    plg[1][4] = 2.5e0 * (7e0 * c2 * c - 3e0 * c) * s;
-    plg[1][5] = 1.875e0 * (21e0 * c4 - 14e0 * c2 + 1e0) * s;
-    plg[1][6] = (11e0 * c * plg[1][5] - 6e0 * plg[1][4]) / 5e0;
-    // PLG(8,2) = (13.0_r8*C*PLG(7,2)-d_7*PLG(6,2))/d_6
-    // PLG(9,2) = (15.0_r8*C*PLG(8,2)-d_8*PLG(7,2))/d_7
-    plg[2][2] = 3e0 * s2;
-    plg[2][3] = 15e0 * s2 * c;
-    plg[2][4] = 7.5e0 * (7e0 * c2 - 1e0) * s2;
-    plg[2][5] = 3e0 * c * plg[2][4] - 2e0 * plg[2][3];
-    plg[2][6] = (11e0 * c * plg[2][5] - 7e0 * plg[2][4]) / 4e0;
-    plg[2][7] = (13e0 * c * plg[2][6] - 8e0 * plg[2][5]) / 5e0;
-    plg[3][3] = 15e0 * s2 * s;
-    plg[3][4] = 105e0 * s2 * s * c;
-    plg[3][5] = (9e0 * c * plg[3][4] - 7e0 * plg[3][3]) / 2e0;
-    plg[3][6] = (11e0 * c * plg[3][5] - 8e0 * plg[3][4]) / 3e0;
+  const double sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
+
+  // calculate legendre polynomials
+  const double c = std::sin(dso::deg2rad(in->glat));
+  const double s = std::cos(dso::deg2rad(in->glat));
+  const double c2 = c * c;
+  const double c4 = c2 * c2;
+  const double s2 = s * s;
+  plg[0][1] = c;
+  plg[0][2] = 0.5e0 * (3e0 * c2 - 1e0);
+  plg[0][3] = 0.5e0 * (5e0 * c * c2 - 3e0 * c);
+  plg[0][4] = (35e0 * c4 - 30e0 * c2 + 3e0) / 8e0;
+  plg[0][5] = (63e0 * c2 * c2 * c - 70e0 * c2 * c + 15e0 * c) / 8e0;
+  plg[0][6] = (11e0 * c * plg[0][5] - 5e0 * plg[0][4]) / 6e0;
+  // PLG(8,1) = (13.0_r8*C*PLG(7,1) - d_6*PLG(6,1))/7.0_r8
+  plg[1][1] = s;
+  plg[1][2] = 3e0 * c * s;
+  plg[1][3] = 1.5e0 * (5e0 * c2 - 1e0) * s;
+  plg[1][4] = 2.5e0 * (7e0 * c2 * c - 3e0 * c) * s;
+  plg[1][5] = 1.875e0 * (21e0 * c4 - 14e0 * c2 + 1e0) * s;
+  plg[1][6] = (11e0 * c * plg[1][5] - 6e0 * plg[1][4]) / 5e0;
+  // PLG(8,2) = (13.0_r8*C*PLG(7,2)-d_7*PLG(6,2))/d_6
+  // PLG(9,2) = (15.0_r8*C*PLG(8,2)-d_8*PLG(7,2))/d_7
+  plg[2][2] = 3e0 * s2;
+  plg[2][3] = 15e0 * s2 * c;
+  plg[2][4] = 7.5e0 * (7e0 * c2 - 1e0) * s2;
+  plg[2][5] = 3e0 * c * plg[2][4] - 2e0 * plg[2][3];
+  plg[2][6] = (11e0 * c * plg[2][5] - 7e0 * plg[2][4]) / 4e0;
+  plg[2][7] = (13e0 * c * plg[2][6] - 8e0 * plg[2][5]) / 5e0;
+  plg[3][3] = 15e0 * s2 * s;
+  plg[3][4] = 105e0 * s2 * s * c;
+  plg[3][5] = (9e0 * c * plg[3][4] - 7e0 * plg[3][3]) / 2e0;
+  plg[3][6] = (11e0 * c * plg[3][5] - 8e0 * plg[3][4]) / 3e0;
 
-    // set last used latitude ...
-    xl = in->glat;
-  }
 
   const double tloc = in->lst;
-  if (std::abs(tll - tloc) > nearzero) {
-    if (std::abs(sw[6]) > 0e0 || std::abs(sw[7]) > 0e0 || std::abs(sw[13])) {
-      stloc = std::sin(hr * tloc);
-      ctloc = std::cos(hr * tloc);
-      s2tloc = std::sin(2e0 * hr * tloc);
-      c2tloc = std::cos(2e0 * hr * tloc);
-      s3tloc = std::sin(3e0 * hr * tloc);
-      c3tloc = std::cos(3e0 * hr * tloc);
-
-      // update last used tloc
-      tll = tloc;
-    }
-  }
-
-  const bool doy_changed = last_doy - (int)in->doy != 0;
-  if (doy_changed || std::abs(p[13] - p14) > nearzero)
-    cd14 = std::cos(dr * (in->doy - p[13]));
-  if (doy_changed || std::abs(p[17] - p18) > nearzero)
-    cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
-  if (doy_changed || std::abs(p[31] - p32) > nearzero)
-    cd32 = std::cos(dr * (in->doy - p[31]));
-  if (doy_changed || std::abs(p[38] - p39) > nearzero)
-    cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
-
-  // update last doy used ...
-  last_doy = in->doy;
-
-  p14 = p[13];
-  p18 = p[17];
-  p32 = p[31];
-  p39 = p[38];
+  stloc = std::sin(hr * tloc);
+  ctloc = std::cos(hr * tloc);
+  s2tloc = std::sin(2e0 * hr * tloc);
+  c2tloc = std::cos(2e0 * hr * tloc);
+  s3tloc = std::sin(3e0 * hr * tloc);
+  c3tloc = std::cos(3e0 * hr * tloc);
+
+  const double cd14 = std::cos(dr * (in->doy - p[13]));
+  const double cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
+  const double cd32 = std::cos(dr * (in->doy - p[31]));
+  const double cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
 
   // F10.7 effect
   const double df = in->f107 - in->f107A;
-- 
2.43.0


From 569ba3cf202f727de532aaea4ce9dd2d9a104078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 092/133] fix: mixed N2 density below the mesopause of this
 call, not of a previous one

---
 src/atmosphere/nrlmsise00_gts7.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index b1d723a..3ed93f2 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -124,11 +124,12 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
         // mixed density at Zlb
         b28 = densu(zh28, db28, tinf, tlb, xmd, alpha[2] - 1e0, tz, ptm[5], s,
                     zn1);
-        if (z <= altl[2] && std::abs(in->sw.sw[14]) > 0e0) {
+        if (z <= altl[2]) {
           // mixed density at alt
           dm28 = densu(z, b28, tinf, tlb, xmm, alpha[2], tz, ptm[5], s, zn1);
           // net density at alt
-          out->d[2] = dnet(out->d[2], dm28, zhm28, xmm, 28e0);
+          if (std::abs(in->sw.sw[14]) > 0e0)
+            out->d[2] = dnet(out->d[2], dm28, zhm28, xmm, 28e0);
         }
       }
 
-- 
2.43.0


From 50920003f1937fe59780e68081407accd8e5b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 093/133] fix: densities NRLMSISE-00 does not compute are zero
 below the mesopause too

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 4d855d8..c851949 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -14,6 +14,9 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
   double *__restrict__ t = out->t;
   double *__restrict__ ds = outc.d;
 
+  // densities not computed are zero
+  std::memset(d, 0, sizeof(double) * 9);
+
   // test for changed input; fuck that, assert input changed, why give the same
   // input ?
   constexpr const bool input_changed = true;
@@ -99,7 +102,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     d[2] = densm(in->alt, dm28m, xmm, tz);
     d[2] *= (1e0 + dmr * dmc);
     // HE DENSITY
-    d[1] = 0e0;
+    d[0] = 0e0;
     if (mass == 4 || mass == 48) {
       dmr = ds[0] / (dz28 * pdm[0][1]) - 1e0;
       d[0] = d[2] * pdm[0][1] * (1e0 + dmr * dmc);
-- 
2.43.0


From 7403366ffb1b4d63e04939b04d75bf306211312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 094/133] fix: NRLMSISE-00 switch 2 turns off the latitude
 variation of gravity

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index c851949..0ce84c0 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -23,7 +23,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
-  if (std::abs(in->sw.sw[1]) < 0)
+  if (in->sw.sw[1] == 0e0)
     xlat = 45e0;
   re = glatf(xlat, gsurf);
 
-- 
2.43.0


From 04adbe0351ae3698205c7f5a56ccf6cecaa88704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 095/133] fix: NRLMSISE-00 atomic nitrogen on request

---
 src/atmosphere/nrlmsise00_gts7.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index 3ed93f2..3ed1667 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -107,7 +107,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     double tz = 0, zhm28 = 0, b28 = 0;
     double db01, db04, db14, db16, db28, db32, db40;
     if (goto_100) {
-      if (z < altl[5] || mass == 28 || mass == 48) {
+      if (z <= altl[5] || mass == 28 || mass == 48) {
         //
         //  **** N2 DENSITY ****
         //
@@ -331,7 +331,8 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
       }
     }
 
-    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8) {
+    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8 ||
+        j == 10) {
 
       //
       // **** ATOMIC NITROGEN DENSITY ****
-- 
2.43.0


From 1a5f705169189a738e3b58abee7a36570c4ce50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 096/133] fix: NRLMSISE-00 first temperature node of the
 troposphere is set

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 0ce84c0..46cd998 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -75,9 +75,10 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
   // Only calculate nodes if input changed
-  if (in->alt < zn3[0]) {
+  if (in->alt <= zn3[0]) {
     if (input_changed || altlast >= zn3[0]) {
       tgn3[0] = tgn2[1];
+      tn3[0] = tn2[3];
       tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
       tn3[2] = pma[4][0] * pavgm[4] / (1e0 - sw21 * glob7s(in, pma[4]));
       tn3[3] = pma[5][0] * pavgm[5] / (1e0 - sw21 * glob7s(in, pma[5]));
-- 
2.43.0


From ca72810ea45abd550180186ea7df1401ccaa420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 097/133] fix: perifocal to equatorial matrix uses the argument
 of perigee in its last row

---
 src/astrodynamics/perifocal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
-- 
2.43.0


From b43b4503d4a4c2d90f81855d0620337e4b123892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 098/133] fix: elements2state (Eigen) does not interchange the
 node and the argument of perigee

---
 src/astrodynamics/state2kepler.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..65fb288 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -79,17 +79,18 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
-                    Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+  // (note that Eigen's rotations are active; angles have the opposite sign)
+  Eigen::Matrix3d R(Eigen::AngleAxisd(Omega, Eigen::Vector3d::UnitZ()) *
+                    Eigen::AngleAxisd(i, Eigen::Vector3d::UnitX()) *
+                    Eigen::AngleAxisd(omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
   //printf("xAngle %+10.5f yAngle %+10.5f zAngle %+10.5f\n", dso::rad2deg(Omega), dso::rad2deg(i), dso::rad2deg(omega));
 
   // rotate to get equatorial, aka geocentric/(quasi-)inertial
-  Y.block<3,1>(0,0) = R.transpose() * Y.block<3,1>(0,0);
-  Y.block<3,1>(3,0) = R.transpose() * Y.block<3,1>(3,0);
+  Y.block<3,1>(0,0) = R * Y.block<3,1>(0,0);
+  Y.block<3,1>(3,0) = R * Y.block<3,1>(3,0);
   //printf("inertial coordinates: r=[%+20.10f %+20.10f %20.10f]\n", Y(0),Y(1),Y(2));
   //printf("                      v=[%+20.10f %+20.10f %20.10f]\n", Y(3),Y(4),Y(5));
   return Y;
-- 
2.43.0


From 7574b21dad37c939a2c9025a914d11871ab86498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 099/133] fix: state2kepler_montenbruck eccentric anomaly

---
 src/astrodynamics/state2kepler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index 65fb288..7561dfa 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -195,7 +195,7 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const double e = std::sqrt(1e0 - (p / a));
   keplerian[3] = e;
 
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
+  const double E = atan2(r.dot_product(v) / (a * a * n), 1e0 - rmag / a);
   const double sE = std::sin(E);
   // const double M = E - e * sE;
 
-- 
2.43.0


From 10347cc6af7d20f68fd8aa22e4ab60f21626fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 100/133] fix: right ascension is defined for every position
 (no NaN from rounding)

---
 src/astrodynamics/pos2ra.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/astrodynamics/pos2ra.cpp b/src/astrodynamics/pos2ra.cpp
index 2a9bf8f..b900bff 100644
--- a/src/astrodynamics/pos2ra.cpp
+++ b/src/astrodynamics/pos2ra.cpp
@@ -20,13 +20,9 @@ int dso::pos2ad(const Vector3 &pos, double &a, double &d) noexcept {
   d = std::asin(n); // range [-pi/2 to pi/2]
   
   // Calculate the right ascension
-  const double af = std::acos(l / std::cos(d));
-#ifdef BRANCHLESS
-  const double ret[] = {iers2010::D2PI - af, af};
-  a = ret[m>0];
-#else
-  a = (m<=0) ? (iers2010::D2PI - af) : af;
-#endif
+  a = std::atan2(m, l);
+  if (a < 0e0)
+    a += iers2010::D2PI;
 
   return 0;
 }
-- 
2.43.0


From 6592db514c0816e069a94eba78cc254c61f2e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 101/133] fix: state2kepler at the apsides and nodes (no NaN
 from rounding)

---
 src/astrodynamics/state2kepler.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index 7561dfa..ae12f7c 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -13,6 +13,12 @@
 
 using dso::Vector3;
 
+/// @brief Angle of a given cosine, where rounding may have pushed the cosine
+///        (slightly) outside [-1,1]
+inline double angle_of_cosine(double c) noexcept {
+  return std::acos(c > 1e0 ? 1e0 : (c < -1e0 ? -1e0 : c));
+}
+
 int dso::elements2state(const dso::OrbitalElements &ele, double dt,
                         dso::Vector3 &r, dso::Vector3 &v, double GM) noexcept {
   // mean anomaly M at time t
@@ -242,19 +248,19 @@ int dso::alternatives::state2kepler_vallado(const double *state,
   //  enorm * enorm);
   //#endif
 
-  keplerian[1] = std::acos(h.z() / hnorm);
+  keplerian[1] = angle_of_cosine(h.z() / hnorm);
 
-  double Omega = std::acos(n.x() / nnorm);
+  double Omega = angle_of_cosine(n.x() / nnorm);
   if (n.y() < 0e0)
     Omega = iers2010::D2PI - Omega;
   keplerian[2] = Omega;
 
-  double omega = std::acos(n.dot_product(e) / (nnorm * enorm));
+  double omega = angle_of_cosine(n.dot_product(e) / (nnorm * enorm));
   if (e.z() < 0e0)
     omega = iers2010::D2PI - omega;
   keplerian[4] = omega;
 
-  double ni = std::acos(e.dot_product(r) / (enorm * rnorm));
+  double ni = angle_of_cosine(e.dot_product(r) / (enorm * rnorm));
   if (r.dot_product(v) < 0e0)
     ni = iers2010::D2PI - ni;
   keplerian[5] = ni;
@@ -290,7 +296,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // momentum h points in a southerly direction. In that case, the orbit is
   // retrograde, which means that the motion of the satellite around the earth
   // is opposite to earth’s rotation.
-  keplerian[1] = std::acos(hv.z() / keplerian[0]);
+  keplerian[1] = angle_of_cosine(hv.z() / keplerian[0]);
 
   // calculate N = k x h ; this vector defines the node line.
   const Vector3 Nv{{-hv.y(), hv.x(), 0e0}};
@@ -305,7 +311,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // the negative side of the XZ plane (180° < Ω < 360°) if NY < 0. Therefore,
   // NY > 0 implies that 0  Ω < 180°, whereas NY < 0 implies that
   // 180° < Ω < 360°
-  const double Nf = std::acos(Nv.x() / N);
+  const double Nf = angle_of_cosine(Nv.x() / N);
 #ifdef BRANCHLESS
   const double retN[] = {Nf, iers2010::D2PI - Nf};
   keplerian[2] = retN[Nv.y() < 0e0];
@@ -328,7 +334,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // positive Z direction) and that perigee lies below the plane
   // (180°  ω < 360°) if e points down. Therefore, eZ >=  0 implies that
   // 0° < ω < 180°, whereas eZ < 0 implies that 180° < ω < 360°.
-  const double Of = std::acos(Nv.dot_product(ev) / N / e);
+  const double Of = angle_of_cosine(Nv.dot_product(ev) / N / e);
 #ifdef BRANCHLESS
   const double retO[] = {Of, iers2010::D2PI - Of};
   keplerian[4] = retO[ev.z() < 0e0];
@@ -343,7 +349,7 @@ int dso::state2kepler(const double *state, double *keplerian,
   // satellite is flying away from perigee (r*v >= 0), then 0 <  θ < 180°,
   // whereas if the satellite is flying toward perigee (r*v < 0), then
   // 180° < θ < 360°.
-  const double Tf = std::acos(ev.dot_product(pos) / e / r);
+  const double Tf = angle_of_cosine(ev.dot_product(pos) / e / r);
 #ifdef BRANCHLESS
   const double retT[] = {Tf, iers2010::D2PI - Tf};
   keplerian[5] = retT[vr < 0e0];
-- 
2.43.0


From d14d4f7b95294b2ef450264ce596d531d72907e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 102/133] fix: celestial/terrestrial state transformation does
 not keep references to temporaries

---
 src/itrs2gcrs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/itrs2gcrs.cpp b/src/itrs2gcrs.cpp
index 36718b6..e86120c 100644
--- a/src/itrs2gcrs.cpp
+++ b/src/itrs2gcrs.cpp
@@ -105,11 +105,11 @@ dso::ycel2ter(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
@@ -141,11 +141,11 @@ dso::yter2cel(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
-- 
2.43.0


From ab8c0129afa721b623b31b280b8dcfa5a930899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 103/133] fix: vallado_shadow cones narrow and widen behind the
 Earth, not in front of it

---
 src/astrodynamics/occultation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..af25329 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -24,7 +24,8 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
   const double cosz = product / (r * s);
   const double zeta = std::acos(cosz);
   const double sinz = std::sin(zeta);
-  const double sath = r * cosz;
+  // distance of the satellite behind the Earth (note that cosz is negative)
+  const double sath = -r * cosz;
   const double satv = r * sinz;
   constexpr const double sinApen = (iers2010::Rs + iers2010::Re) / iers2010::AU;
   constexpr const double Apen = /*std::asin(sinApen);*/ gcem::asin(sinApen);
-- 
2.43.0


From 47abc56879aa38b66aa1a38adb2af82b7677c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 104/133] fix: shadow functions on the axis of the shadow (no
 NaN from rounding)

---
 src/astrodynamics/occultation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index af25329..ee85020 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -1,4 +1,5 @@
 #include "astrodynamics.hpp"
+#include <algorithm>
 #include <cmath>
 #include "gcem.hpp" // for constexpr math (trigonometric funcs)
 #include "geodesy/ellipsoid.hpp"
@@ -21,7 +22,7 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
 
   const double r = r_sat.norm();
   const double s = r_sun.norm();
-  const double cosz = product / (r * s);
+  const double cosz = std::max(-1e0, product / (r * s));
   const double zeta = std::acos(cosz);
   const double sinz = std::sin(zeta);
   // distance of the satellite behind the Earth (note that cosz is negative)
@@ -68,7 +69,7 @@ double utest::bernese_shadow1(const dso::Vector3 &r_sat,
     const double rsun = zsun.norm();
     const double rsat2 = zsat.norm_squared();
     const double rcos = zsat.dot_product(zsun) / rsun;
-    const double rsin = std::sqrt(rsat2-rcos*rcos);
+    const double rsin = std::sqrt(std::max(0e0, rsat2-rcos*rcos));
     if (rcos<0e0 && (rsin-iers2010::Re<0e0)) return 0e0;
     return 1;
 }
@@ -79,7 +80,8 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double nsunsat = (r_sun - r_sat).norm();
   const double ts = std::asin(iers2010::Rs / nsunsat);
   const double tes =
-      std::acos(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
+      std::acos(std::min(1e0, std::max(-1e0, -r_sat.dot_product(r_sun - r_sat) /
+                                                 (nsunsat * r_sat.norm()))));
 
   if (tes >= te + ts)
     return 1e0;
-- 
2.43.0


From 6da0c49579f018aa3ca3f313a191f4a09bbd7a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 105/133] fix: gravity acceleration at a position computes its
 polynomials with assertions off too

---
 src/egravity.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/egravity.hpp b/src/egravity.hpp
index e524b56..5bd4f39 100644
--- a/src/egravity.hpp
+++ b/src/egravity.hpp
@@ -168,7 +168,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() >= degree + 2 && V.cols() >= order + 2);
   assert(W.rows() >= degree + 2 && W.cols() >= order + 2);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc);
 }
@@ -188,7 +190,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() == degree + 3 && V.cols() == order + 3);
   assert(W.rows() == degree + 3 && W.cols() == order + 3);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc,
                               partials);
-- 
2.43.0


From 8b0d611619c98495c0a0d391331c3c158b47b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 106/133] fix: all elements of the gravity gradient are set (it
 is symmetric)

---
 src/gravity/gravity_acceleration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..24ae9b0 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -205,12 +205,12 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
   partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
+  partials(0, 1) = partials(1, 0);      // day/dx
   partials(1, 1) = 1e0;                 // day/dy
   partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
-- 
2.43.0


From bbcacadf810991b608492df77475c84bf7260236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 107/133] fix: gravity gradient includes the mixed z terms of
 order one

---
 src/gravity/gravity_acceleration.cpp | 32 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index 24ae9b0..8e58ce9 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -128,15 +128,14 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
       /* (n-m+2)! / (n-m)! for n=2,... , starting with n=i,m=2 */
       fac2 = dso::factorialRatio<double>(i - 2 + 2, i - 2);
       //(double)FTable.factorial(i - 2 + 2) / (double)FTable.factorial(i - 2);
-      /* (n-m+3)! / (n-m)! for n=2,... */
-      fac3 = dso::factorialRatio<double>(i - 2 + 3, i - 2);
-      //(double)FTable.factorial(i - 2 + 3) / (double)FTable.factorial(i - 2);
       /* (n-m+4)! / (n-m)! for n=2,... */
       fac4 = dso::factorialRatio<double>(i - 2 + 4, i - 2);
       //(double)FTable.factorial(i - 2 + 4) / (double)FTable.factorial(i - 2);
     } else {
-      fac2 = fac3 = fac4 = 0e0;
+      fac2 = fac4 = 0e0;
     }
+    /* (n-m+3)! / (n-m)! for n=1,... , starting with m=1 */
+    fac3 = dso::factorialRatio<double>(i - 1 + 3, i - 1);
 
     for (int j = 1; j <= std::min(i, order); j++) {
       const double Cnm = hc.C(i, j);
@@ -156,7 +155,7 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
                afac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc2 += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
 
-      // partials ... (already computed for m==1)
+      // partials ... (xx, xy and zz already computed for m==1)
       if (j > 1) {
         daxdx_m2 +=
             0.25e0 * (Cnm * V(i + 2, j + 2) + Snm * W(i + 2, j + 2) +
@@ -166,22 +165,23 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
             0.25e0 * (Cnm * W(i + 2, j + 2) - Snm * V(i + 2, j + 2) +
                       fac4 * (-Cnm * W(i + 2, j - 2) + Snm * V(i + 2, j - 2)));
 
-        daxdz_m2 +=
-            (static_cast<double>(i - j + 1) / 2e0) *
-                (Cnm * V(i + 2, j + 1) + Snm * W(i + 2, j + 1)) +
-            fac3 * 0.5e0 * (-Cnm * V(i + 2, j - 1) - Snm * W(i + 2, j - 1));
-
-        daydz_m2 +=
-            (static_cast<double>(i - j + 1) / 2e0) *
-                (Cnm * W(i + 2, j + 1) - Snm * V(i + 2, j + 1)) +
-            fac3 * 0.5e0 * (Cnm * W(i + 2, j - 1) - Snm * V(i + 2, j - 1));
-
         dazdz_m2 += fac2 * (Cnm * V(i + 2, j) + Snm * W(i + 2, j));
 
         fac2 *= ((double)(i - j) / (double)(i - j + 2));
-        fac3 *= ((double)(i - j) / (double)(i - j + 3));
         fac4 *= ((double)(i - j) / (double)(i - j + 4));
       }
+
+      daxdz_m2 +=
+          (static_cast<double>(i - j + 1) / 2e0) *
+              (Cnm * V(i + 2, j + 1) + Snm * W(i + 2, j + 1)) +
+          fac3 * 0.5e0 * (-Cnm * V(i + 2, j - 1) - Snm * W(i + 2, j - 1));
+
+      daydz_m2 +=
+          (static_cast<double>(i - j + 1) / 2e0) *
+              (Cnm * W(i + 2, j + 1) - Snm * V(i + 2, j + 1)) +
+          fac3 * 0.5e0 * (Cnm * W(i + 2, j - 1) - Snm * V(i + 2, j - 1));
+
+      fac3 *= ((double)(i - j) / (double)(i - j + 3));
     }
   }
   // printf("\tGravitational potential (m>0)\n");
-- 
2.43.0


From 8ef24b1b395fb801529c63ff8cd15f38f73b8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 108/133] fix: gravity gradient of a zonal expansion leaves out
 order one (and does not read beyond V, W)

---
 src/gravity/gravity_acceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index 8e58ce9..89b174c 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -106,7 +106,7 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; i <= degree && order > 0; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
-- 
2.43.0


From a1911ad5279fc4ebcfd5ae8238a80d1a42f50041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 109/133] fix: point mass acceleration partials

---
 src/gravity/point_mass_acceleration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..e931d0a 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
+  const double dn5 = dn2 * dn2 * dn;
   partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  -3e0 * (d*d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
-- 
2.43.0


From 5a0e69e874d5740d3ac01dc555a3bfc917596987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 110/133] fix: drag acceleration does not keep references to
 temporaries

---
 src/astrodynamics/drag.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..34c30ca 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,12 +26,12 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
-  const auto vabs = vrel.norm();
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
+  const double vabs = vrel.norm();
 
   // Acceleration
   Eigen::Matrix<double, 3, 1> acc =
-- 
2.43.0


From eee2f199b099677737d1c2cd0c53667c13f99102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 111/133] fix: var/icgem gravity acceleration along y

---
 var/icgem/src/gravity_acceleration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/icgem/src/gravity_acceleration.cpp b/var/icgem/src/gravity_acceleration.cpp
index cd53e5b..b9fdd48 100644
--- a/var/icgem/src/gravity_acceleration.cpp
+++ b/var/icgem/src/gravity_acceleration.cpp
@@ -41,7 +41,7 @@ int dso::grav_potential_accel(
       xacc2 += 0.5e0 * (-Cnm * Vnp1mp1 - Snm * Wnp1mp1) +
                fac * (Cnm * Vnp1mm1 + Snm * Wnp1mm1);
       yacc2 += 0.5e0 * (-Cnm * Wnp1mp1 + Snm * Vnp1mp1) +
-               fac * (-Cnm * Vnp1mm1 + Snm * Wnp1mm1);
+               fac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
     }
   }
-- 
2.43.0


From 8b17a0395988a552551ca5a433c8770edd740703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 112/133] fix: var/icgem point_mass_accel is defined once
 (header included by several sources)

---
 var/icgem/src/egravity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/var/icgem/src/egravity.hpp b/var/icgem/src/egravity.hpp
index 1b57e51..fff5b42 100644
--- a/var/icgem/src/egravity.hpp
+++ b/var/icgem/src/egravity.hpp
@@ -14,8 +14,8 @@ namespace dso {
 /// @param[in] robj Point mass position vector (e.g. moon)
 /// @return A vector containing the acceleration components
 /// @see e.g. Curtis, Chapter 10.10
-Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
-                         double GM) noexcept {
+inline Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
+                                double GM) noexcept {
   //  Relative position vector of satellite w.r.t. point mass
   auto d = rsat - robj;
   // Acceleration
-- 
2.43.0


From 66d8ac1297b5ade76e6da0b10192aeb865a5a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 113/133] fix: degree 0 polynomials do not write beyond V, W

---
 src/gravity/lagrange_poly.cpp   | 12 ++++++++----
 var/icgem/src/lagrange_poly.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index fea9ca7..6a5e669 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
diff --git a/var/icgem/src/lagrange_poly.cpp b/var/icgem/src/lagrange_poly.cpp
index bd8848d..bd7ad4f 100644
--- a/var/icgem/src/lagrange_poly.cpp
+++ b/var/icgem/src/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
-- 
2.43.0


From ffc20565fcc3739bd5cb36cf272bfddca89860e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 114/133] fix: sectorial polynomials in row-wise storage
 (DEBUG)

---
 src/gravity/lagrange_poly.cpp   | 4 ++--
 var/icgem/src/lagrange_poly.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index 6a5e669..4a1e821 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -43,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
diff --git a/var/icgem/src/lagrange_poly.cpp b/var/icgem/src/lagrange_poly.cpp
index bd7ad4f..73bc5e5 100644
--- a/var/icgem/src/lagrange_poly.cpp
+++ b/var/icgem/src/lagrange_poly.cpp
@@ -43,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
-- 
2.43.0


From 3cded5043f11a6e3737295911ed315dcfd1d7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 115/133] fix: solar radiation partial w.r.t. a zero
 coefficient is defined

---
 src/astrodynamics/solar_radiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/solar_radiation.cpp b/src/astrodynamics/solar_radiation.cpp
index 963a1fb..cdc261f 100644
--- a/src/astrodynamics/solar_radiation.cpp
+++ b/src/astrodynamics/solar_radiation.cpp
@@ -42,7 +42,7 @@ dso::solar_radiation_acceleration(const Eigen::Matrix<double, 3, 1> &rsat,
       C * (Area / mass) * P0 * AU2 * d / D3;
 
   // partials w.r.t C, see Monentbruck, 7.3.3
-  dadC = acceleration / C;
+  dadC = (Area / mass) * P0 * AU2 * d / D3;
 
   return acceleration;
 }
-- 
2.43.0


From 5ea3eaf7906668e7a1ef1c6221b5b5311d7aef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 116/133] fix: variational equations evaluate their models with
 assertions off too

---
 src/orbit_integration.hpp     |  4 +++-
 src/variational_equations.cpp | 30 +++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/orbit_integration.hpp b/src/orbit_integration.hpp
index 8464980..c5e6007 100644
--- a/src/orbit_integration.hpp
+++ b/src/orbit_integration.hpp
@@ -52,7 +52,9 @@ struct IntegrationParameters {
         degree(degree_), order(order_) {
     assert(degree_ == harmonics_.degree());
     // gravitational parameters
-    assert(!dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon));
+    [[maybe_unused]] const int error =
+        dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon);
+    assert(!error);
   };
 
   ~IntegrationParameters() noexcept {
diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index d7fe823..3665e4c 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -15,6 +15,9 @@ void dso::VariationalEquations(
     // auxiliary parametrs
     dso::IntegrationParameters &params) noexcept {
 
+  // status of the models evaluated (checked by assertions)
+  [[maybe_unused]] int error = 0;
+
   // current mjd, TAI
   const double cmjd = params.mjd_tai + tsec / dso::sec_per_day;
 
@@ -25,7 +28,8 @@ void dso::VariationalEquations(
 #else
   Eigen::Matrix<double, 3, 3> rc2i, rpom;
   double era,xlod;
-  assert(!gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod));
+  error = gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod);
+  assert(!error);
   // const auto t2c = (rpom * rc2ti).transpose() ;
 #endif
   //{
@@ -136,10 +140,12 @@ void dso::VariationalEquations(
       utc_fday += 1e0;
       --imjd;
     }
-    assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
+    error = params.AtmDataFeed->update_params(imjd, utc_fday*86400e0);
+    assert(!error);
     params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
     dso::nrlmsise00::OutParams aout;
-    assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+    error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+    assert(!error);
     const double atmdens = aout.d[5];
     Eigen::Matrix<double,3,1> drhodr;
     { // approximate arithmetic derivative w.r.t satellite ECEF position
@@ -148,31 +154,37 @@ void dso::VariationalEquations(
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       p1 = aout.d[5];
       unitv << 0e0, 0e0, 1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
+      error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      assert(!error);
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
     }
-- 
2.43.0


From 9fa555ed62225790c298789ec0f96c8db62a59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 117/133] fix: gravity gradient is transformed to the celestial
 frame

---
 src/variational_equations.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 3665e4c..c72d6e3 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -62,7 +62,7 @@ void dso::VariationalEquations(
   //printf(">> ITRF acc: %+.9f %+.9f %+.9f\n", gacc(0), gacc(1), gacc(2));
 #ifdef ABCD
   gacc = t2c * gacc;
-  gpartials = t2c.transpose() * gpartials * t2c;
+  gpartials = t2c * gpartials * t2c.transpose();
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
   //    printf(" %+.6f ", t2c.transpose()(i,j));
@@ -75,15 +75,16 @@ void dso::VariationalEquations(
   //}
 #else
   gacc = rter2cel(gacc, rc2i, era, rpom);
-  const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
-  gpartials = (rpom * rc2ti) * gpartials * (rpom * rc2ti).transpose();
+  const Eigen::Matrix<double, 3, 3> rc2t =
+      rpom * (Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i);
+  gpartials = rc2t.transpose() * gpartials * rc2t;
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
-  //    printf(" %+.6f ",(rpom * rc2ti)(i,j));
+  //    printf(" %+.6f ",rc2t(i,j));
   //  }
   //  printf("\t\t");
   //  for (int j=0; j<3; j++) {
-  //    printf(" %+.6f ",(rpom * rc2ti).transpose()(i,j));
+  //    printf(" %+.6f ",rc2t.transpose()(i,j));
   //  }
   //  printf("\n");
   //}
-- 
2.43.0


From 8282072e871409ea49a92f47f0f37d1cf43ed06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 118/133] fix: density gradient along z takes both sides

---
 src/variational_equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index c72d6e3..e8d7984 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -182,7 +182,7 @@ void dso::VariationalEquations(
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
       p1 = aout.d[5];
-      unitv << 0e0, 0e0, 1e0;
+      unitv << 0e0, 0e0, -1e0;
       params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
-- 
2.43.0


From 43afaf9b82f7c3717e83d204d61a37804ba7c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 119/133] fix: density is evaluated at the satellite's
 Earth-fixed position

---
 src/variational_equations.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index e8d7984..7ec961c 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -143,7 +143,7 @@ void dso::VariationalEquations(
     }
     error = params.AtmDataFeed->update_params(imjd, utc_fday*86400e0);
     assert(!error);
-    params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
+    params.AtmDataFeed->set_spatial_from_cartesian(r_geo);
     dso::nrlmsise00::OutParams aout;
     error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
     assert(!error);
@@ -154,40 +154,46 @@ void dso::VariationalEquations(
       double p1,m1;
       // w.r.t X component
       unitv << 1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
       p1 = aout.d[5];
       unitv << -1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
       m1 = aout.d[5];
       drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Y component
       unitv << 0e0, 1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
       p1 = aout.d[5];
       unitv << 0e0, -1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
       m1 = aout.d[5];
       drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
       // w.r.t Z component
       unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
       p1 = aout.d[5];
       unitv << 0e0, 0e0, -1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
+      params.AtmDataFeed->set_spatial_from_cartesian(r_geo + unitv);
       error = params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
       assert(!error);
       m1 = aout.d[5];
       drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
+      // from terrestrial to inertial, as the satellite's position
+#ifdef ABCD
+      drhodr = t2c * drhodr;
+#else
+      drhodr = rter2cel(drhodr, rc2i, era, rpom);
+#endif
     }
   //  //printf("Note: Using drag coefficient=%.3f\n", params.get_drag_coefficient());
     //drag = dso::drag_accel(r, v, ProjArea, /*params.get_drag_coefficient()*/2e0,
-- 
2.43.0


From 5d9b719073a51ec6dffaa31b2136e5f5f597af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 120/133] fix: without attitude the drag partials are zero, as
 drag is

---
 src/variational_equations.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 7ec961c..9e6a21c 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -103,9 +103,9 @@ void dso::VariationalEquations(
   // Warning only valid for Jason-3
   // get the quaternion
   Eigen::Matrix<double, 3, 1> drag = Eigen::Matrix<double, 3, 1>::Zero();
-  Eigen::Matrix<double, 3, 3> ddragdr;
-  Eigen::Matrix<double, 3, 3> ddragdv;
-  Eigen::Matrix<double, 3, 1> ddragdC;
+  Eigen::Matrix<double, 3, 3> ddragdr = Eigen::Matrix<double, 3, 3>::Zero();
+  Eigen::Matrix<double, 3, 3> ddragdv = Eigen::Matrix<double, 3, 3>::Zero();
+  Eigen::Matrix<double, 3, 1> ddragdC = Eigen::Matrix<double, 3, 1>::Zero();
   Eigen::Quaternion<double> q;
   if (params.qhunt->get_at(cmjd, q)) {
     fprintf(stderr, "ERROR Failed to find quaternion for datetime\n");
-- 
2.43.0


From 3ec356fbe14aeb04d0e04d48bffa2a04ae332f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 121/133] fix: local solar time is set along with the longitude

---
 src/atmosphere/nrlmsise00.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 178f6c9..6f0461c 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -331,7 +331,8 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
   }
 
   /// @brief Set parameter set spatial input data (longitude, latitude and 
-  /// altitude) from a set of cartesian ECEF coordinates
+  /// altitude) from a set of cartesian ECEF coordinates; local solar time is
+  /// set accordingly, for the date/time already set
   void
   set_spatial_from_cartesian(const Eigen::Matrix<double, 3, 1> &xyz) noexcept {
     const Eigen::Matrix<double, 3, 1> lfh =
@@ -339,6 +340,8 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.glon = dso::rad2deg(lfh(0)); // longitude in degrees
     params_.glat = dso::rad2deg(lfh(1)); // latitude in degrees
     params_.alt  = lfh(2) * 1e-3; // altitude in km
+    // local solar time consistent with (UT) seconds of day and longitude
+    params_.lst = std::fmod(params_.sec / 3600e0 + params_.glon / 15e0 + 24e0, 24e0);
   }
 };
 
-- 
2.43.0


From 05e5e54b56ad8dae8bd076666e53569426665dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 122/133] fix: blocks without a frequency offset do not enter
 the filter

---
 src/doris/fit_rfo.cpp | 48 ++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 58be2b4..864f9fb 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -84,6 +84,13 @@ struct LinearKalman {
   dso::datetime<dso::nanoseconds> tref;
 };
 
+// does the data block hold a (relative frequency offset) F value ?
+static bool holds_rfo(const std::vector<dso::BeaconObservations> &obsvec,
+                      int findex) noexcept {
+  return !obsvec.empty() && obsvec[0].m_values[findex].m_value !=
+                                dso::OBSERVATION_VALUE_MISSING;
+}
+
 int get_starting_rfo(const char *rnx_fn, double &rfo,
                      dso::datetime<dso::nanoseconds> &reft) noexcept {
   using namespace dso;
@@ -108,23 +115,28 @@ int get_starting_rfo(const char *rnx_fn, double &rfo,
   }
   int findex = std::distance(obs_list.begin(), fit);
 
-  rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS);
-  // resolve the data-block header
-  if (int status = rnx.resolve_data_epoch(line, hdr); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block header! error=%d "
-            "(traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+  do {
+    rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS);
+    // resolve the data-block header
+    if (int status = rnx.resolve_data_epoch(line, hdr); status) {
+      fprintf(stderr,
+              "[ERROR] Failed to resolve data block header! error=%d "
+              "(traceback: %s)\n",
+              status, __func__);
+      return 1;
+    }
 
-  // get the measurements
-  if (int status = rnx.read_data_block(hdr, obsvec); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+    // get the measurements
+    if (int status = rnx.read_data_block(hdr, obsvec); status) {
+      fprintf(
+          stderr,
+          "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
+          status, __func__);
+      return 1;
+    }
+
+    // skip blocks that hold no F value
+  } while (!holds_rfo(obsvec, findex));
 
   // for a single block, all F measurements/values should be the same!
   rfo = obsvec[0].m_values[findex].m_value;
@@ -184,6 +196,10 @@ int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
       return 1;
     }
 
+    // nothing to use in this block
+    if (!holds_rfo(obsvec, findex))
+      continue;
+
     // for a single block, all F measurements/values should be the same!
     rfo = obsvec[0].m_values[findex].m_value;
     for (const auto &bobs : obsvec) {
-- 
2.43.0


From ebd291a6749b661d528249d5e29a5062631fb00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 123/133] fix: an unreadable first RINEX is an error of the
 frequency offset filter

---
 src/doris/fit_rfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 864f9fb..e1d71c5 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -92,7 +92,7 @@ static bool holds_rfo(const std::vector<dso::BeaconObservations> &obsvec,
 }
 
 int get_starting_rfo(const char *rnx_fn, double &rfo,
-                     dso::datetime<dso::nanoseconds> &reft) noexcept {
+                     dso::datetime<dso::nanoseconds> &reft) {
   using namespace dso;
 
   DorisObsRinex rnx(rnx_fn); // may throw ....
-- 
2.43.0


From 479ebca59904440b20f9f3862f8a298bfe8b98b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 124/133] fix: the Sun's acceleration is in m/sec^2

---
 src/sunmoon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunmoon.cpp b/src/sunmoon.cpp
index aa12e71..ed42372 100644
--- a/src/sunmoon.cpp
+++ b/src/sunmoon.cpp
@@ -29,7 +29,7 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
 
   // Sun-induced acceleration [km/sec^2]
   sun_acc = dso::point_mass_accel(GMSun, rsat * 1e-3, rSun);
-  sun_acc = sun_acc * 1e-3; // [m/sec^2]
+  sun_acc = sun_acc * 1e3; // [m/sec^2]
 
   // Moon-induced acceleration [m/sec^2]
   moon_acc =
-- 
2.43.0


From 0665fca6ad611c9b0b73a49cc6afbd8c3635020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 125/133] fix: rate of the Sun's mean anomaly

---
 src/planets/sunpos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/planets/sunpos.cpp b/src/planets/sunpos.cpp
index 71f57d9..1fa78a3 100644
--- a/src/planets/sunpos.cpp
+++ b/src/planets/sunpos.cpp
@@ -49,7 +49,7 @@ int dso::sun_vector_vallado(double t, double *rsun) noexcept {
   const double lambda =
       std::fmod(280.460e0 + 36000.771e0 * t, 360e0); // [degrees]
   const double M =
-      std::fmod(357.5291092e0 + 35999.50534e0 * t, 360e0); // [degrees]
+      std::fmod(357.5291092e0 + 35999.05034e0 * t, 360e0); // [degrees]
   const double Mrad = dso::deg2rad(M);
   const double l_ecliptic = std::fmod(lambda + 1.914666471e0 * sin(Mrad) +
                                           0.019994643e0 * sin(2e0 * Mrad),
@@ -80,7 +80,7 @@ int dso::sun_vector_approx21(double t, double *rsun) noexcept {
   const double lambda = std::modf(cf1 + cf2 * t, &dummy) * pi2; // [rad]
 
   constexpr double cf3 = normalize_deg(357.5291092e0);
-  constexpr double cf4 = normalize_deg(35999.50534e0);
+  constexpr double cf4 = normalize_deg(35999.05034e0);
   const double M = std::modf(cf3 + cf4 * t, &dummy) * pi2; // [rad]
 
   const double lon_arg = 1.914666471e0 * sin(M) + 0.019994643e0 * sin(2e0 * M);
-- 
2.43.0


From a365d64150b47de3582bea4688b9814eb62220e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 126/133] fix: a depth-3 lookup in a configuration without
 sections is an error, not an exception

---
 src/var_utils.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/var_utils.hpp b/src/var_utils.hpp
index 49775bc..ebfbd3c 100644
--- a/src/var_utils.hpp
+++ b/src/var_utils.hpp
@@ -101,18 +101,31 @@ int get_yaml_value_depth2(const YAML::Node &root, const char *key1,
 ///   // val hold the value 1
 template <typename T>
 int get_yaml_value_depth3(const YAML::Node &root, const char *key1,
-                          const char *key2, const char *key3, T &val) {
-  const YAML::Node node = get_yaml_node(root, key1);
-  return get_yaml_value_depth2(node, key2, key3, val);
+                          const char *key2, const char *key3, T &val) noexcept {
+  try {
+    const YAML::Node node = get_yaml_node(root, key1);
+    return get_yaml_value_depth2(node, key2, key3, val);
+  } catch (...) {
+    fprintf(stderr, "ERROR@%s Failed finding key %s::%s::%s\n", __func__, key1,
+            key2, key3);
+    return 1;
+  }
 }
 
 /// @brief Specialization of the template <typename T>::get_yaml_value_depth3
 /// function for C-strings
 inline
 int get_yaml_value_depth3(const YAML::Node &root, const char *key1,
-                          const char *key2, const char *key3, char *buf) {
-  const YAML::Node node = get_yaml_node(root, key1);
-  return get_yaml_value_depth2(node, key2, key3, buf);
+                          const char *key2, const char *key3,
+                          char *buf) noexcept {
+  try {
+    const YAML::Node node = get_yaml_node(root, key1);
+    return get_yaml_value_depth2(node, key2, key3, buf);
+  } catch (...) {
+    fprintf(stderr, "ERROR@%s Failed finding key %s::%s::%s\n", __func__, key1,
+            key2, key3);
+    return 1;
+  }
 }
 
 // int get_CelesTrack_flux_data(
-- 
2.43.0


From 94c9b39e50c0d0491e5172db2d76146e99905c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 127/133] fix: Bulletin B files for intervals that start or end
 with a file, or need several

---
 script/fetch_iers_c04.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index cec061d..bf5f4dd 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -229,16 +229,7 @@ def c04_date_span(c04fn):
 ##                           {'t0':datetime_start, 't':datetime_stop}, ...
 ## to  a sorted list of filenames, base on the value 't0'
 def c04_dict_to_sorted_list(c04_dict):
-    lst = []
-    ct = datetime.datetime.max
-    for fn,vals in c04_dict.items():
-        if vals['t0'] < ct:
-            lst = [fn] + lst
-            ct = vals['t0']
-        else:
-            lst.append(fn)
-            if len(lst) == 1: ct = vals['t0']
-    return lst
+    return sorted(c04_dict, key=lambda fn: c04_dict[fn]['t0'])
 
 ## write out a list (of dicts) of IERS Bulletin B/C04 final data
 def c04_cat(outfn, *c04fns):
@@ -297,7 +288,7 @@ if __name__ == '__main__':
     # guess the number of the file
     dummy_it = 0
     guess = bc04_nr0 + (t_start - bc04_first_date).days // 31
-    while not prior_covered or not post_covered and dummy_it < 1000:
+    while (not prior_covered or not post_covered) and dummy_it < 1000:
 
         ## download remote file
         remote = bc04_url + '{:}'.format(guess)
@@ -310,17 +301,14 @@ if __name__ == '__main__':
         d0,dn = c04_date_span(local)
         vprint('\tTime span: {:} to {:}'.format(d0, dn))
 
-        ## will we be needing it?
-        file_is_of_use = False
+        ## will we be needing it? check if it overlaps the requested interval
+        file_is_of_use = d0 <= t_end and t_start <= dn
 
-        ## check if it overlaps the requested interval
-        if not prior_covered and d0 < t_start and t_start < dn:
+        if d0 <= t_start and t_start <= dn:
             prior_covered = True
-            file_is_of_use = True
 
-        if not post_covered and d0 < t_end and t_end < dn:
+        if d0 <= t_end and t_end <= dn:
             post_covered = True
-            file_is_of_use = True
 
         ## if not to be used, remove local
         if file_is_of_use:
@@ -328,16 +316,15 @@ if __name__ == '__main__':
         else:
             os.remove(local)
 
-        ## next guess
-        if d0 > t_start: guess -= 1
-        elif dn < t_end: guess += 1
-        elif prior_covered and post_covered:
-          pass
-        else:
-           raise RuntimeError('WTF??')
+        ## next guess; first go for the start of the interval, then forward
+        if not prior_covered and d0 > t_start: guess -= 1
+        else: guess += 1
 
         dummy_it += 1
 
+    if not prior_covered or not post_covered:
+        raise RuntimeError('Failed to find C04 files for the requested interval')
+
     ## what file are we writing in?
     outfile = None if not args.save_as else args.save_as
 
-- 
2.43.0


From 1c21c5d507464a91b9e465030113ca15c346d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:47 +0000
Subject: [PATCH 128/133] fix: first line of a site log gives the site's name

---
 script/pydoris/pydoris/log/ids_log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 4ea5af1..6192009 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -8,7 +8,7 @@ def parse_first_log_line(line):
     """ Expect a line of type:
       '    YELLOWKNIFE DORIS site description form'
     """
-    m = re.match(r"\s* [a-zA-Z_-]+ DORIS site description form\s*", line)
+    m = re.match(r"\s* ([a-zA-Z_-]+) DORIS site description form\s*", line)
     if not m or len(m.groups()) != 1:
         errmsg = 'ERROR. Failed to match expected pattern in fist line \'{:}\''.format(
             line.strip)
-- 
2.43.0


From 3ddff6200ab7d6582f707099b5de23c741e7d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:47 +0000
Subject: [PATCH 129/133] fix: block 4 of any site's log is recognised

---
 script/pydoris/pydoris/log/ids_log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 6192009..6f89e53 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -21,7 +21,7 @@ IdsLogFileBlocks = {
     1: '1. Site location information',
     2: '2. DORIS antenna and reference point information',
     3: '3. DORIS beacons information',
-    4: '4. ITRF coordinates and velocities of the current DORIS ref. point (YEMB)',
+    4: '4. ITRF coordinates and velocities of the current DORIS ref. point',
     5: '5. IERS colocation information',
     6: '6. Tide Gauge colocation information',
     7: '7. Local site ties',
-- 
2.43.0


From 042719ecf3253fba1d6a618cbbaf66698a84b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:47 +0000
Subject: [PATCH 130/133] fix: last part of the last block of a site log

---
 script/pydoris/pydoris/log/ids_log_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 6f89e53..c3e11f9 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -104,6 +104,10 @@ class IdsLogFile:
             else:
                 line = self.istream_.readline()
 
+        ## last block of the file
+        if not line and cdic:
+            ret.append(cdic)
+
         return ret
 
     def parse_block_nr(self, block_nr):
-- 
2.43.0


From b550cf2d635b08e76e6993f7d40ada79f094766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:47 +0000
Subject: [PATCH 131/133] fix: antenna heights without decimals

---
 script/pydoris/pydoris/log/ids_log_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index c3e11f9..c976dc5 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -125,11 +125,11 @@ def dump_log_antenna_info(logfn,fout=sys.stdout):
     for subblock in lofd:
         name = subblock["Four character ID"]
         height_str = subblock["Height above ground mark"]
-        m = re.match(r"([0-9]+.[0-9]+)?\s*m", height_str)
+        m = re.match(r"([0-9]+(?:\.[0-9]+)?)?\s*m", height_str)
         ## Guard against the case where no explicit "m" (aka meters) character
         ## is present. Produce a warning though
         if not m:
-            m = re.match(r"([0-9]+.[0-9]+)?\s*", height_str)
+            m = re.match(r"([0-9]+(?:\.[0-9]+)?)?\s*", height_str)
             if not m:
                 errmsg = "ERROR. Failed to parse height from string \'{}\' (file {:})".format(height_str,logfn)
                 raise RuntimeError(errmsg)
-- 
2.43.0


From 5b07356c3486ef72ab0542d364a1f5c86b172622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 132/133] fix: converting a gravity model without end of header
 ends with an error

---
 script/gfc_fortran2c.py           | 3 +++
 var/icgem/script/gfc_fortran2c.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/script/gfc_fortran2c.py b/script/gfc_fortran2c.py
index 6d51aec..1b45ae8 100755
--- a/script/gfc_fortran2c.py
+++ b/script/gfc_fortran2c.py
@@ -21,6 +21,9 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. Failed to find end of header in file {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
diff --git a/var/icgem/script/gfc_fortran2c.py b/var/icgem/script/gfc_fortran2c.py
index 6d51aec..1b45ae8 100755
--- a/var/icgem/script/gfc_fortran2c.py
+++ b/var/icgem/script/gfc_fortran2c.py
@@ -21,6 +21,9 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. Failed to find end of header in file {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
-- 
2.43.0


From d44e769a6c9acad0d872adfa351e012a9c15a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 133/133] fix: antenna prototype reports every zenith angle
 outside the table

---
 var/antenna/phselaw.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/var/antenna/phselaw.cc b/var/antenna/phselaw.cc
index 9bfd03e..643c6d4 100644
--- a/var/antenna/phselaw.cc
+++ b/var/antenna/phselaw.cc
@@ -17,10 +17,12 @@ struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
     const double angle = ngpt::rad2deg<double>(zenith);
     out_of_bounds = 0;
     if (zenith<0e0 || zenith > ngpt::DPI/2e0) {
-      return 0e0;
       out_of_bounds=1;
+      return 0e0;
     }
     int index = std::floor(angle/5e0);
+    if (index > 17) // the last interval includes its end
+      index = 17;
 #ifdef DEBUG
     assert(index>=0 && index < sizeof(plarray)-1);
 #endif
@@ -32,7 +34,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 2> {
   static constexpr double offset[3] = { 0e0, 0e0, 335e0 };
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = (zenith<0e0) + (zenith > ngpt::DPI/2e0);
     return 0e0;
   }
 };
@@ -52,6 +54,8 @@ struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
       return 0e0;
     }
     int index = std::floor(angle/5e0);
+    if (index > 17) // the last interval includes its end
+      index = 17;
 #ifdef DEBUG
     assert(index>=0 && index < sizeof(plarray)-1);
 #endif
@@ -63,7 +67,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 2> {
   static double constexpr offset[3] = {0e0, 0e0, 0e0};
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = (zenith<0e0) + (zenith > ngpt::DPI/2e0);
     return 0e0;
   }
 };
@@ -83,6 +87,8 @@ struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
       return 0e0;
     }
     int index = std::floor(angle/5e0);
+    if (index > 17) // the last interval includes its end
+      index = 17;
 #ifdef DEBUG
     assert(index>=0 && index < sizeof(plarray)-1);
 #endif
@@ -94,7 +100,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 2> {
   static constexpr double offset[3] = {0e0, 0e0, 0e0};
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = (zenith<0e0) + (zenith > ngpt::DPI/2e0);
     return 0e0;
   }
 };
-- 
2.43.0

