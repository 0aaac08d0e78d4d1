From 97359b598c6b16d0dcbf80c8defeab5f919dcc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 1/2] fix: Invar constructor from a vector of quantum numbers
 rejected every argument

The size check compared against the still empty data member, so InvertParity()
(and thus the recalculation of odd-parity singlet operators) always threw.
---
 c++/invar.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c++/invar.hpp b/c++/invar.hpp
index 9d75952..ea427be 100644
--- a/c++/invar.hpp
+++ b/c++/invar.hpp
@@ -51,9 +51,8 @@ class Invar {
    // more fancy terms) the dimension of the Cartan subalgebra of the full symmetry algebra.
    inline static size_t invdim = 0; // 0 before initialization!
    Invar() : data(invdim) {}
-   explicit Invar(const InvType &d) {
-     my_assert(d.size() == data.size());
-     data = d;
+   explicit Invar(const InvType &d) : data(d) {
+     my_assert(data.size() == invdim);
    }
    explicit Invar(const int i0) : data{i0} {} // (int) constructor
    explicit Invar(const int i0, const int i1) : data{i0, i1} {} // (int,int) constructor
-- 
2.43.0


From b00e865eec8fc25f6d0e16e620ff1afcebc8fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 2/2] fix: matrix closes the including file at the end of an
 included one

---
 tools/matrix/parser.cc | 6 ++++++
 tools/matrix/parser.yy | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..c5beb0a 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1940,10 +1940,16 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    // End of an included file: the including file continues, do not close it
+    if (include_depth > 0) {
+      return 1;
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..eb3104a 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -339,10 +339,16 @@ int remaining;
 int current = 0;
 FILE *file;
 extern FILE *yyin;
+extern int include_depth;
 
 extern "C" {
 int yywrap(void)
 {
+    // End of an included file: the including file continues, do not close it
+    if (include_depth > 0) {
+      return 1;
+    }
+
     if (current != 0 && file) {
       fclose(file);
       file = nullptr;
-- 
2.43.0

