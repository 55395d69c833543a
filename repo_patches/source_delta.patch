From 54868b107ea0d47c409f4eee8fdeed7e944c56b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 1/6] fix: RationalNTL::div with the object itself as the
 divisor

---
 code/latte/rational.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index 678561a..19899bf 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -268,8 +268,9 @@ RationalNTL & RationalNTL::div(const ZZ & rhs)
 
 RationalNTL & RationalNTL::div(const RationalNTL & rhs)
 {
+	const ZZ rhsNumerator = rhs.numerator; //rhs may be *this.
 	numerator *= rhs.denominator;
-	denominator *= rhs.numerator;
+	denominator *= rhsNumerator;
 	canonicalize();
 	return *this;
 }
-- 
2.43.0


From 7a13f0b070f2fdf36cc27f336252d1183a027961 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 2/6] fix: reading a rational with an explicit plus sign

---
 code/latte/rational.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index 19899bf..e0812df 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -580,7 +580,8 @@ ZZ RationalNTL::readNumber(istream &in)
 	assert(in.eof() == false);
 
 	//cout << "currentChar=" << currentChar << '.' << endl;
-	s << currentChar;
+	if (currentChar != '+')
+		s << currentChar; //the conversion to ZZ does not accept a plus sign.
 
 	while( isdigit(in.peek()) )
 	{
-- 
2.43.0


From 7c5e69c39584568f0cc41a07aac3d02e31f64ac1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 3/6] fix: isVectorInListVector reports membership, not
 equality of all elements

---
 code/latte/ramon.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/latte/ramon.cpp b/code/latte/ramon.cpp
index 479bff2..02f1bbb 100644
--- a/code/latte/ramon.cpp
+++ b/code/latte/ramon.cpp
@@ -92,12 +92,12 @@ isVectorInListVector(const vec_ZZ & v, listVector *list) {
    listVector *tmp_list = list;
 
    while (tmp_list) {
-      if (!isVectorEqualToVector(v, tmp_list->first, numOfVars)) {
-         return (0);
+      if (isVectorEqualToVector(v, tmp_list->first, numOfVars)) {
+         return (1);
       }
       tmp_list = tmp_list->rest;
    }
-   return (1);
+   return (0);
 }
 
 /* ----------------------------------------------------------------- */
-- 
2.43.0


From ca7e4ea5ad116d0aad3f34516091a115f173452f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 4/6] fix: simplified stability cube stays within the stability
 cube

---
 code/latte/Irrational.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/latte/Irrational.cpp b/code/latte/Irrational.cpp
index 84108f9..8bac294 100644
--- a/code/latte/Irrational.cpp
+++ b/code/latte/Irrational.cpp
@@ -174,8 +174,10 @@ static void simplifyConeStabilityCube(rationalVector *center,
     c_numer /= center->denominators()[i];
     center->set_entry(i, c_numer, c_denom);
   }
+  // Rounding moves the center by less than 2^-(k+1), and 2^-k is at most
+  // the old length; thus the new length must not exceed 2^-(k+1).
   length_numerator = 1;
-  power2(length_denominator, k);
+  power2(length_denominator, k + 1);
 }
 
 rationalVector *
-- 
2.43.0


From 7be98f6bcdaaa9a64d6676dd69bb4042c6d33afb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:49:48 +0000
Subject: [PATCH 5/6] fix: Smith normal form eliminates with the pivot's own
 sign

When the last entry left of a row or column is the only one and is negative,
the gcd g it is reduced with is negative and equals the pivot; multiplying the
quotient by the pivot's sign then doubled the entry instead of clearing it, and
the result was not diagonal.
---
 code/latte/genFunction/matrix_ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/genFunction/matrix_ops.cpp b/code/latte/genFunction/matrix_ops.cpp
index d1bd595..b9ad185 100644
--- a/code/latte/genFunction/matrix_ops.cpp
+++ b/code/latte/genFunction/matrix_ops.cpp
@@ -214,7 +214,7 @@ static void eliminationRow(mat_ZZ& A, mat_ZZ& R, int offset)
   {
     if (!IsZero(A[offset][j]))
     {
-      ZZ tmp = (A[offset][j] / g) * sign(A[offset][offset]);
+      ZZ tmp = A[offset][j] / g; // g == A[offset][offset], possibly negative
       for (int i = 0; i < A.NumRows(); i++)
       {
 	R[i][j] -= tmp * R[i][offset];
@@ -277,7 +277,7 @@ static void eliminationCol(mat_ZZ& A, mat_ZZ& L, int offset)
   {
     if (!IsZero(A[i][offset]))
     {
-      s = (A[i][offset] / g) * sign(A[offset][offset]);
+      s = A[i][offset] / g; // g == A[offset][offset], possibly negative
       L[i] -= s * L[offset];
       A[i] -= s * A[offset];
     }
-- 
2.43.0


From c9aef0e0f7a3310663360ef7aa81349a4c7b09fb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:30:30 +0000
Subject: [PATCH 6/6] fix: polynomial interpolation reads past the matrix rows
 when the points repeat an abscissa

GE() searched a pivot up to row rowSize but tested 'currentRow > rowSize', so a column
without a pivot swapped in the row behind the last one. Skip such a column, and let
getSolutionVector() report the singular system.
---
 code/latte/interpolation/PolynomialInterpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/interpolation/PolynomialInterpolation.cpp b/code/latte/interpolation/PolynomialInterpolation.cpp
index 2bcf15f..8d11474 100644
--- a/code/latte/interpolation/PolynomialInterpolation.cpp
+++ b/code/latte/interpolation/PolynomialInterpolation.cpp
@@ -118,7 +118,7 @@ void PolynomialInterpolation::GE()
             currentRow = currentRow + 1;
         }
         
-        if(  currentRow > rowSize)
+        if(  currentRow >= rowSize)
 		{
 			currentColumn++;
             continue; //found column of zeros
-- 
2.43.0

