From e4461355f9f6002da7966e9d9c02b4f87be207c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:28 +0000
Subject: [PATCH 01/63] fix: Interpolant::Save reports failed writes

Save returned success whatever happened to the stream: a full disk, an I/O
error or a failing close left a truncated table behind a 'true'.
---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0f3300..e82acba 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -600,10 +600,10 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
         }
     }
 
-    Save(out, binary_tables);
+    bool success = Save(out, binary_tables);
 
     out.close();
-    return 1;
+    return success && out.good();
 }
 
 //----------------------------------------------------------------------------//
@@ -652,7 +652,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
             for (int i = 0; i < max_; i++)
             {
                 out.write(reinterpret_cast<char*>(&iX_.at(i)), sizeof iX_.at(i));
-                Interpolant_.at(i)->Save(out, binary_tables);
+                if (!Interpolant_.at(i)->Save(out, binary_tables))
+                    return 0;
             }
         } else
         {
@@ -705,7 +706,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
             for (int i = 0; i < max_; i++)
             {
                 out << iX_.at(i) << std::endl;
-                Interpolant_.at(i)->Save(out, binary_tables);
+                if (!Interpolant_.at(i)->Save(out, binary_tables))
+                    return 0;
             }
         } else
         {
@@ -726,7 +728,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         }
     }
     out.flush();
-    return 1;
+    return out.good();
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From b90a012ab4fb72ce35b67498cb327b4ec2b42b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 02/63] fix: Interpolant::Load rejects truncated tables

A table cut inside its header or inside a row was initialised from
uninitialised variables, or accepted with rows missing, and the object was
left half-overwritten. Check the stream after each header, propagate the
result of nested tables, and only replace the object once all was read.
---
 src/PROPOSAL/PROPOSAL/math/Interpolant.h      |  4 +++
 .../detail/PROPOSAL/math/Interpolant.cxx      | 35 +++++++++++++++++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Interpolant.h b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
index cc56022..bb17711 100644
--- a/src/PROPOSAL/PROPOSAL/math/Interpolant.h
+++ b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
@@ -153,6 +153,10 @@ private:
 
     //----------------------------------------------------------------------------//
 
+    bool Read(std::ifstream& in, bool binary_tables);
+
+    //----------------------------------------------------------------------------//
+
     /**
      * Auxiliary class initializer.
      *
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index e82acba..b1bb018 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -761,7 +761,22 @@ bool Interpolant::Load(std::string Path, bool binary_tables)
 
 bool Interpolant::Load(std::ifstream& in, bool binary_tables)
 {
-    bool D2;
+    // read into a new object: a failed load leaves this one unchanged
+    Interpolant loaded;
+
+    if (!loaded.Read(in, binary_tables))
+        return 0;
+
+    swap(loaded);
+    return 1;
+}
+
+//----------------------------------------------------------------------------//
+//----------------------------------------------------------------------------//
+
+bool Interpolant::Read(std::ifstream& in, bool binary_tables)
+{
+    bool D2 = false;
 
     int max;
     double xmin, xmax;
@@ -789,6 +804,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in.read(reinterpret_cast<char*>(&relativeY), sizeof relativeY);
             in.read(reinterpret_cast<char*>(&logSubst), sizeof logSubst);
 
+            if (!in.good() || max <= 0)
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
@@ -801,7 +819,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Read(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
@@ -821,6 +840,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in.read(reinterpret_cast<char*>(&relativeY), sizeof relativeY);
             in.read(reinterpret_cast<char*>(&logSubst), sizeof logSubst);
 
+            if (!in.good() || max <= 0)
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
@@ -844,6 +866,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in >> romberg >> rational >> relative >> isLog;
             in >> rombergY >> rationalY >> relativeY >> logSubst;
 
+            if (!in.good() || max <= 0)
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
@@ -855,7 +880,8 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
                 if (!in.good())
                     return 0;
                 Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
+                if (!Interpolant_.at(i)->Read(in, binary_tables))
+                    return 0;
                 Interpolant_.at(i)->self_ = false;
             }
 
@@ -867,6 +893,9 @@ bool Interpolant::Load(std::ifstream& in, bool binary_tables)
             in >> romberg >> rational >> relative >> isLog;
             in >> rombergY >> rationalY >> relativeY >> logSubst;
 
+            if (!in.good() || max <= 0)
+                return 0;
+
             InitInterpolant(
                 max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
-- 
2.43.0


From 38818764e000214df200af0eb7948172ee9ea6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 03/63] fix: Interpolant::Save keeps two-dimensional tables
 two-dimensional

The dimension was taken from function2d_, which is empty for tables built
from samples or loaded from a file (saved as 1D, losing the data) and never
empty in a copy (std::ref to the source's member: saving a copied 1D table
threw). Decide on the nested tables and copy the functions by value.
---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index b1bb018..7203948 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -616,9 +616,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         Logging::Get("proposal.interpolant")->error("Can not open file for writing");
         return 0;
     }
-    bool D2 = false;
-    if (function2d_ != NULL)
-        D2 = true;
+    bool D2 = !Interpolant_.empty();
 
     if (binary_tables)
     {
@@ -996,8 +994,8 @@ Interpolant::Interpolant(const Interpolant& interpolant)
         Interpolant_.at(i) = new Interpolant(*interpolant.Interpolant_.at(i));
     }
 
-    function1d_ = std::ref(interpolant.function1d_);
-    function2d_ = std::ref(interpolant.function2d_);
+    function1d_ = interpolant.function1d_;
+    function2d_ = interpolant.function2d_;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From cdd1ab9ae0dec13956cf1a7fadcc0b39ab187c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 04/63] fix: inverse search of order 1 near the last node

For order 1 the start index was rounded towards zero instead of down, so the
nearest node lay outside the window [start, start + order) and looking at its
neighbour ran past the table (std::out_of_range).
---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index 7203948..ebab4ac 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -198,7 +198,7 @@ double Interpolant::InterpolateArray(double x)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -254,7 +254,7 @@ double Interpolant::InterpolateArray(double x1, double x2)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -361,7 +361,7 @@ double Interpolant::FindLimit(double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -494,7 +494,7 @@ double Interpolant::FindLimit(double x1, double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
-- 
2.43.0


From 60b2230d2d98863795537b1081beed53b4016e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:53 +0000
Subject: [PATCH 05/63] fix: text tables keep full precision in both Save
 overloads

Save(ofstream) wrote text tables with whatever precision the stream had (6
digits by default); Save(path) used 16 digits, one short of exact.
---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index ebab4ac..f26b31c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <cmath>
 #include <fstream>
+#include <limits>
 #include <sstream>
 
 #include "PROPOSAL/math/Interpolant.h"
@@ -687,6 +688,9 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         }
     } else
     {
+        // enough digits to read back exactly the same numbers
+        out.precision(std::numeric_limits<double>::max_digits10);
+
         out << D2 << std::endl;
 
         if (D2)
-- 
2.43.0


From 3faab0f3263528ebcb2fbaa568270cb601dbe163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 06/63] fix: table file names survive an allocation failure

A stringstream swallows bad_alloc, so under memory pressure the text table was
written to (or read from) a truncated file name and success was reported.
---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index f26b31c..ac26c93 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -577,10 +577,7 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
 
     if (!binary_tables)
     {
-        std::stringstream ss;
-        ss << Path << ".txt";
-
-        out.open(ss.str().c_str());
+        out.open((Path + ".txt").c_str());
 
         out.precision(16);
 
@@ -743,10 +740,7 @@ bool Interpolant::Load(std::string Path, bool binary_tables)
 
     if (!binary_tables)
     {
-        std::stringstream ss;
-        ss << Path << ".txt";
-
-        in.open(ss.str().c_str());
+        in.open((Path + ".txt").c_str());
     } else
     {
         in.open(Path.c_str(), std::ios::binary);
-- 
2.43.0


From 704e598d7c05227b2e3e0343a4fdee8e45dae98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 07/63] fix: copies of an Integral own their integrand

Copying, assigning and swapping stored a reference to the other object's
integrand: GetUpperLimit of the copy used a destroyed function, or whatever
the source integrated since; swap even made an object refer to the temporary
inside operator=.
---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ab5af53..63473c5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -396,7 +396,7 @@ Integral::Integral(const Integral& integral)
     , q_rlist2_(integral.q_rlist2_)
     , q_iord_(integral.q_iord_)
 {
-    integrand_ = std::ref(integral.integrand_);
+    integrand_ = integral.integrand_;
 }
 
 //----------------------------------------------------------------------------//
@@ -571,7 +571,7 @@ void Integral::swap(Integral& integral)
     c_.swap(integral.c_);
     d_.swap(integral.d_);
 
-    integrand_ = std::ref(integral.integrand_);
+    swap(integrand_, integral.integrand_);
 
     swap(romberg4refine_, integral.romberg4refine_);
     swap(powerOfSubstitution_, integral.powerOfSubstitution_);
-- 
2.43.0


From e2ff58af33cab492f0da754b07e023cda3c9c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 08/63] fix: Integral::GetUpperLimit is repeatable and
 transforms narrow intervals

With a ratio of 0 or 1 a second call applied the exponential or power
transformation to the already transformed limit, and for an interval that is
narrow only in the transformed variable the untransformed limit was returned
(e.g. log(E) instead of E).
---
 .../detail/PROPOSAL/math/Integral.cxx         | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 63473c5..6928fed 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -109,30 +109,35 @@ double Integral::GetUpperLimit()
     {
         if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
         {
-            return min_;
+            randomX_ = min_;
+        } else
+        {
+            RefineUpperLimit(savedResult_);
         }
 
-        RefineUpperLimit(savedResult_);
+        // randomX_ stays in the integration variable: the transformation
+        // must not be applied again if this method is called again
+        double upperLimit = randomX_;
 
         if (reverse_)
         {
-            randomX_ = reverseX_ - randomX_;
+            upperLimit = reverseX_ - upperLimit;
         }
 
         if (powerOfSubstitution_ > 0)
         {
-            randomX_ = std::pow(randomX_, -powerOfSubstitution_);
+            upperLimit = std::pow(upperLimit, -powerOfSubstitution_);
         } else if (powerOfSubstitution_ < 0)
         {
-            randomX_ = -std::pow(-randomX_, powerOfSubstitution_);
+            upperLimit = -std::pow(-upperLimit, powerOfSubstitution_);
         }
 
         if (useLog_)
         {
-            randomX_ = std::exp(randomX_);
+            upperLimit = std::exp(upperLimit);
         }
 
-        return randomX_;
+        return upperLimit;
     } else
     {
         Logging::Get("proposal.integral")->error("No previous call to upper limit functions was made!");
@@ -159,6 +164,7 @@ double Integral::IntegrateWithSubstitution(double min,
         this->min_ = min;
         this->max_ = max;
         randomDo_  = true;
+        powerOfSubstitution_ = 0;
         return 0;
     } else if (min > max)
     {
@@ -260,6 +266,8 @@ double Integral::IntegrateWithLog(double min, double max, std::function<double(d
         this->min_ = min;
         this->max_ = max;
         randomDo_  = true;
+        useLog_    = false;
+        powerOfSubstitution_ = 0;
 
         return 0;
     } else if (min > max)
-- 
2.43.0


From 6f1911e48cb12733b971e609737e5ca55712e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 09/63] fix: an integrand that throws leaves Integral usable

RefineUpperLimit lowers the order and narrows the interval while it searches;
an exception from the integrand left the object integrating with order 2
forever, and a repeated GetUpperLimit searching the wrong interval.
---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 6928fed..00e559f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -1259,6 +1259,21 @@ void Integral::RefineUpperLimit(double result)
     rombergStore = romberg_;
     minStore     = min_;
     maxStore     = max_;
+
+    // the integrand may throw
+    struct Restore
+    {
+        Integral& integral;
+        int romberg;
+        double min, max;
+        ~Restore()
+        {
+            integral.romberg_ = romberg;
+            integral.min_     = min;
+            integral.max_     = max;
+        }
+    } restore{ *this, rombergStore, minStore, maxStore };
+
     max_         = randomX_;
 
     functionValue = RombergIntegrateOpened(result) - randomNumber_ * result;
-- 
2.43.0


From ad4cf314a1a2afb4be3e80a429a816a88e0c013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 10/63] fix: integrations do not depend on what the Integral
 did before

With limits a substitution cannot treat, the integrand of the previous call
was integrated again (or an empty function called on a new object); a failed
call left GetUpperLimit answering for the previous one; IntegrateOpened kept
the ratio of an earlier call, which changes how a NaN is treated.
---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 00e559f..ee41d8a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -158,6 +158,7 @@ double Integral::IntegrateWithSubstitution(double min,
 
     reverse_ = false;
     useLog_  = false;
+    randomDo_ = false;
 
     if (std::abs(max - min) <= std::abs(min) * COMPUTER_PRECISION)
     {
@@ -260,6 +261,7 @@ double Integral::IntegrateWithLog(double min, double max, std::function<double(d
 
     reverse_ = false;
     useLog_  = true;
+    randomDo_ = false;
 
     if (std::abs(max - min) <= std::abs(min) * COMPUTER_PRECISION)
     {
@@ -1091,6 +1093,7 @@ double Integral::InitIntegralOpenedAndClosed(double min, double max, std::functi
     this->max_           = max;
     integrand_           = integrand;
     powerOfSubstitution_ = 0;
+    randomNumber_        = 0;
     randomDo_            = false;
 
     return aux;
@@ -1205,6 +1208,11 @@ double Integral::IntegrateWithSubstitution(double min,
 
     aux = InitIntegralWithSubstitution(min, max, integrand, powerOfSubstitution);
 
+    if (aux == 0)
+    {
+        return 0;
+    }
+
     if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
     {
         return 0;
@@ -1478,6 +1486,11 @@ double Integral::IntegrateWithLogSubstitution(double min,
 
     aux = InitIntegralWithLogSubstitution(min, max, integrand, powerOfSubstitution);
 
+    if (aux == 0)
+    {
+        return 0;
+    }
+
     if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
     {
         return 0;
-- 
2.43.0


From f09d1f8ca7b9b18f03646cc82cedb1349ab1c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 11/63] fix: Integral with few refinement steps writes past its
 buffers

The buffers were sized by maxSteps but hold maxSteps_romberg_ (12) samples.
---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ee41d8a..0231d2e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -369,8 +369,8 @@ Integral::Integral()
         precision_ = 1.e-6;
     }
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
@@ -456,8 +456,8 @@ Integral::Integral(int romberg, int maxSteps, double precision)
     this->maxSteps_upper_limit_ = maxSteps;
     this->precision_            = precision;
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
+    iX_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
+    iY_.resize(std::max(maxSteps_upper_limit_, maxSteps_romberg_));
 
     aux = std::max(romberg_, romberg4refine_);
     c_.resize(aux);
-- 
2.43.0


From 76def8e33ba822c00cf302ff9685e2efd09616b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:50 +0000
Subject: [PATCH 12/63] fix: a refused integration does not leave a stale upper
 limit behind

With limits the substitution cannot treat, GetUpperLimit kept answering for an
earlier request, with its transformation half reset.
---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 0231d2e..0a3ae7c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -1142,6 +1142,7 @@ double Integral::InitIntegralWithSubstitution(double min,
 
     reverse_ = false;
     useLog_  = false;
+    randomDo_ = false;
 
     if (min > max)
     {
@@ -1416,6 +1417,7 @@ double Integral::InitIntegralWithLogSubstitution(double min,
 
     reverse_ = false;
     useLog_  = true;
+    randomDo_ = false;
 
     if (min < 0 || max < 0)
     {
-- 
2.43.0


From d51927bbe19b3ed7cf79a3a1a1a4ae8fcaa794ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 13/63] fix: a damaged random number state does not replace the
 current one

---
 src/PROPOSAL/detail/PROPOSAL/math/RandomGenerator.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/RandomGenerator.cxx b/src/PROPOSAL/detail/PROPOSAL/math/RandomGenerator.cxx
index 95ca3f5..8f9d80e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/RandomGenerator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/RandomGenerator.cxx
@@ -63,7 +63,10 @@ void RandomGenerator::Serialize(std::ostream& os)
 // ------------------------------------------------------------------------- //
 void RandomGenerator::Deserialize(std::istream& is)
 {
-    is >> rng_;
+    // an incomplete state must not replace the current one
+    std::mt19937 rng;
+    if (is >> rng)
+        rng_ = rng;
 }
 
 // ------------------------------------------------------------------------- //
-- 
2.43.0


From e885dfd2ca6e353ec67aaa5ae671b958e98dacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 14/63] fix: BremsKochMotz does not reseed the global random
 generator

---
 .../parametrization/bremsstrahlung/BremsKochMotz.cxx  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
index 83b381e..6023ad9 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
@@ -4,6 +4,7 @@
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <random>
 
 using namespace PROPOSAL;
 
@@ -35,8 +36,10 @@ secondaries::BremsKochMotz::CalculateDirections(
         const Component& c, std::vector<double>& rnd){
     // We do not know in advance how many random numbers we need, so use one
     // passed random number to set the seed for a RNG to keep reproducibility
-    RandomGenerator internal_rnd_generator;
-    internal_rnd_generator.SetSeed(std::numeric_limits<int>::max() * rnd[0]);
+    // (a generator of its own, the global one must not be reseeded)
+    std::mt19937 internal_rnd_generator(
+            static_cast<int>(std::numeric_limits<int>::max() * rnd[0]));
+    std::uniform_real_distribution<double> uniform(0.0, 1.0);
 
     // Based on "Improved bremsstrahlung photon angular sampling in the EGS4
     // code system" (PIRS-0203), algorithm given in chapter (2.1)
@@ -45,10 +48,10 @@ secondaries::BremsKochMotz::CalculateDirections(
     auto Z = c.GetNucCharge();
     double phi, x_hat, g_max;
     do {
-        phi = CalculatePhiCandidate(E_0, internal_rnd_generator.RandomDouble());
+        phi = CalculatePhiCandidate(E_0, uniform(internal_rnd_generator));
         x_hat = std::pow(E_0 * phi, 2);
         g_max = N(E, E_0, Z) * g(x_hat, E, E_0, Z);
-    } while (internal_rnd_generator.RandomDouble() > g_max);
+    } while (uniform(internal_rnd_generator) > g_max);
     auto cosphi = std::cos(phi);
     auto theta = rnd[1] * 2. * PI;
     auto dir_photon = Cartesian3D(init_direction);
-- 
2.43.0


From 37acfe7adb4ba550a0c47a65e2d1147a2e8084aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:10 +0000
Subject: [PATCH 15/63] fix: DecayTable keeps channels with equal branching
 ratios

---
 src/PROPOSAL/PROPOSAL/decay/DecayTable.h          |  2 +-
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
index a4d9640..bbb05cf 100644
--- a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
+++ b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
@@ -42,7 +42,7 @@ void swap(DecayTable&, DecayTable&);
 
 class DecayTable
 {
-    typedef std::map<double, DecayChannel*> DecayMap;
+    typedef std::multimap<double, DecayChannel*> DecayMap;
 
 public:
     DecayTable();
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 5c1bf5e..4c55d0d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -1,4 +1,5 @@
 
+#include <memory>
 #include <sstream>
 
 #include "PROPOSAL/decay/DecayTable.h"
@@ -28,7 +29,7 @@ DecayTable::DecayTable(const DecayTable& table)
 
     for (DecayMap::const_iterator iter = table.channels_.begin(); iter != table.channels_.end(); ++iter)
     {
-        channels_[iter->first] = iter->second->clone();
+        addChannel(iter->first, *iter->second);
     }
 }
 
@@ -132,17 +133,19 @@ DecayChannel& DecayTable::SelectChannel(double rnd) const
 // ------------------------------------------------------------------------- //
 void DecayTable::SetStable()
 {
-    clearTable();
-
     // TODO(mario): Find better way Wed 2017/08/23
     // A stable channel which alwas will be selected
-    channels_[1.1] = new StableChannel();
+    DecayTable stable;
+    stable.addChannel(1.1, StableChannel());
+    swap(*this, stable);
 }
 
 // ------------------------------------------------------------------------- //
 DecayTable& DecayTable::addChannel(double Br, const DecayChannel& dc)
 {
-    channels_[Br] = dc.clone();
+    std::unique_ptr<DecayChannel> channel(dc.clone());
+    channels_.emplace(Br, channel.get());
+    channel.release();
     return *this;
 }
 
-- 
2.43.0


From bb06ae1c9ad8e97772118d67c4eb8b057d470a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:21 +0000
Subject: [PATCH 16/63] fix: comparing Highland with another scattering model
 does not crash

---
 .../PROPOSAL/scattering/multiple_scattering/Highland.cxx      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
index 8d3fdfb..718087e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
@@ -33,7 +33,9 @@ bool Highland::compare(const Parametrization& scattering) const
 {
     auto sc = dynamic_cast<const Highland*>(&scattering);
 
-    if (radiation_length != sc->radiation_length)
+    if (!sc)
+        return false;
+    else if (radiation_length != sc->radiation_length)
         return false;
     else if (charge != sc->charge)
         return false;
-- 
2.43.0


From eb670baabbebdaccb73d9b2e55196ee917ea6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:31 +0000
Subject: [PATCH 17/63] fix: scattering by more than a right angle keeps unit
 directions

---
 .../scattering/multiple_scattering/Parametrization.cxx        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
index cd2e7fe..f12d266 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
@@ -59,11 +59,15 @@ namespace PROPOSAL {
             auto mean_direction = sz * direction_cartesian;
             mean_direction += sx * rotate_vector_x;
             mean_direction += sy * rotate_vector_y;
+            if (sx * sx + sy * sy > 1.)
+                mean_direction.normalize();
 
             // Rotation towards all tree axes
             auto final_direction = tz * direction_cartesian;
             final_direction += tx * rotate_vector_x;
             final_direction += ty * rotate_vector_y;
+            if (tx * tx + ty * ty > 1.)
+                final_direction.normalize();
 
             return std::make_pair(mean_direction, final_direction);
         }
-- 
2.43.0


From 717afb6afca427eaea74c417c9d86e65ae1522c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:41 +0000
Subject: [PATCH 18/63] fix: comparing Moliere does not look at intermediate
 results of the last call

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx       | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 0f5c471..3c13041 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -202,10 +202,6 @@ bool Moliere::compare(const Parametrization& scattering) const
         return false;
     else if (max_weight_index_ != sc->max_weight_index_)
         return false;
-    else if (chiCSq_ != sc->chiCSq_)
-        return false;
-    else if (B_ != sc->B_)
-        return false;
     else
         return true;
 }
-- 
2.43.0


From 24f18956dd64b20dc75fc392696b503eb5cf3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 19/63] fix: clones of HighlandIntegral do not refer to the
 original

---
 .../scattering/multiple_scattering/HighlandIntegral.h       | 2 +-
 .../scattering/multiple_scattering/HighlandIntegral.cxx     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
index 4224f35..de93138 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
@@ -41,7 +41,7 @@ namespace multiple_scattering {
     class HighlandIntegral : public Highland {
         std::shared_ptr<UtilityIntegral> highland_integral;
 
-        inline double Integral(Displacement&, double);
+        static inline double Integral(Displacement&, double, double);
 
     public:
         HighlandIntegral(const ParticleDef& p, Medium const& m,
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
index bd7e34c..205a5a5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
@@ -17,7 +17,7 @@ double HighlandIntegral::CalculateTheta0(double grammage, double ei, double ef)
     return std::min(aux, 1.0);
 }
 
-double HighlandIntegral::Integral(Displacement& disp, double energy)
+double HighlandIntegral::Integral(Displacement& disp, double energy, double mass)
 {
     auto square_momentum = (energy - mass) * (energy + mass);
     auto aux = energy / square_momentum;
@@ -28,14 +28,14 @@ HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::false_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityIntegral>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [mass = p.mass, disp](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {};
 
 HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::true_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityInterpolant>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [mass = p.mass, disp](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {
         highland_integral->BuildTables("scattering_", 500, true);
 };
-- 
2.43.0


From 456fdc5789cf07a447419de37344ee74cebb0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 20/63] fix: deflection in ionization is defined for small
 losses of fast particles

---
 .../scattering/stochastic_deflection/ionization/IonizNaive.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
index 7343b7e..96f6443 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 using namespace PROPOSAL;
 
@@ -11,5 +12,7 @@ stochastic_deflection::IonizNaive::CalculateStochasticDeflection(
     auto p_f = std::sqrt((e_f + mass) * (e_f - mass));
     auto costheta = ((e_i + ME) * e_f - e_i * ME - mass * mass) / (p_i * p_f);
 
+    costheta = std::max(-1., std::min(1., costheta)); // numerical inaccuracies
+
     return UnitSphericalVector { std::acos(costheta), 2 * PI * rnd[0] };
 }
\ No newline at end of file
-- 
2.43.0


From 7945549d50360fc0def2d9eea18aa3b33e42fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 21/63] fix: a fractional inner radius in a configuration is
 not truncated

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 +-
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a5a27c..d2a80f7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -36,7 +36,7 @@ Cylinder::Cylinder(const nlohmann::json& config)
 
 
     radius_ = config["outer_radius"].get<double>();
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
     assert(inner_radius_>=0);
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 37a9d50..8210cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -33,7 +33,7 @@ Sphere::Sphere(const nlohmann::json& config)
 
     config["outer_radius"].get_to(radius_);
 
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
-- 
2.43.0


From 4f2079d1a70519ac2dcd201852a8993e789f909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 22/63] fix: an invalid cylinder configuration is refused, not
 assumed away

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index d2a80f7..425fe46 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -31,17 +31,19 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
-    assert(config["outer_radius"].is_number());
-    assert(config["height"].is_number());
-
+    if(!config.at("outer_radius").is_number())
+        throw std::invalid_argument("Outer radius is not a number.");
+    if(!config.at("height").is_number())
+        throw std::invalid_argument("Height is not a number.");
 
     radius_ = config["outer_radius"].get<double>();
     inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
-    assert(inner_radius_>=0);
-    assert(radius_>inner_radius_);
-    assert(z_>0);
+    if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
+    if(radius_ < inner_radius_)
+        throw std::logic_error("radius must be larger than inner radius");
+    if(z_ < 0) throw std::logic_error("height must be > 0");
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
-- 
2.43.0


From ce2650b84b9fa990d9d956da080c957d0416cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 23/63] fix: the nearest border of a hollow cylinder entered
 through its hole comes first

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 425fe46..5c10743 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -515,7 +515,8 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
         distance.first = -1;
     if (distance.second < GEOMETRY_PRECISION)
         distance.second = -1;
-    if (distance.first < 0)
+    if (distance.first < 0 ||
+        (distance.second > 0 && distance.second < distance.first))
         std::swap(distance.first, distance.second);
 
     return distance;
-- 
2.43.0


From 13b73245cc9f0448509fba6a11d204d5c2398a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 24/63] fix: the hole of a cylinder is met from a rounded point
 of its end faces

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 5c10743..33efae7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -359,7 +359,8 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
                         // |     |      |     |
                         // |_____|      |_____|
                         //
-                        if (pos_vec.GetZ() >= z_calc_neg && pos_vec.GetZ() <= z_calc_pos &&
+                        if (pos_vec.GetZ() >= z_calc_neg - GEOMETRY_PRECISION &&
+                            pos_vec.GetZ() <= z_calc_pos + GEOMETRY_PRECISION &&
                             std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
                             std::pow((pos_vec.GetY() - position_.GetY()), 2)) <=
                                 radius_ + GEOMETRY_PRECISION &&
-- 
2.43.0


From 587da1fedbfba2f52753a9ef1017e9d5555c46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 25/63] fix: copies of a Polynom own their coefficients

---
 src/PROPOSAL/PROPOSAL/math/Function.h          |  2 +-
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 14 ++++----------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Function.h b/src/PROPOSAL/PROPOSAL/math/Function.h
index b2aefe5..465be78 100644
--- a/src/PROPOSAL/PROPOSAL/math/Function.h
+++ b/src/PROPOSAL/PROPOSAL/math/Function.h
@@ -66,7 +66,7 @@ class Polynom {
 
    protected:
     int N_;
-    double* coeff_;
+    std::vector<double> coeff_;
 };
 
 }  // namespace PROPOSAL
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 0138e80..1bf44b2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -12,19 +12,14 @@
 
 using namespace PROPOSAL;
 
-Polynom::Polynom(std::vector<double> coefficients) : N_(coefficients.size()) {
-    coeff_ = new double[N_];
-
-    std::copy(coefficients.begin(), coefficients.end(), coeff_);
-}
+Polynom::Polynom(std::vector<double> coefficients)
+    : N_(coefficients.size()), coeff_(coefficients) {}
 
 Polynom::Polynom(const nlohmann::json& config) {
     if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
 
     N_ = config["coefficients"].get<std::vector<double>>().size();
-    coeff_ = new double[N_];
-
-    std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
+    coeff_ = config["coefficients"].get<std::vector<double>>();
 }
 
 Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(poly.coeff_) {}
@@ -98,8 +93,7 @@ Polynom Polynom::GetAntiderivative(double constant) {
 }
 
 std::vector<double> Polynom::GetCoefficient() const {
-    std::vector<double> v(coeff_, coeff_ + N_);
-    return v;
+    return coeff_;
 }
 
 std::function<double(double)> Polynom::GetFunction() {
-- 
2.43.0


From 23b033cbaf6b090fad930075152326cebadfe42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 26/63] fix: polynomial densities can be read from a
 configuration

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 1bf44b2..e9461ca 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -16,7 +16,8 @@ Polynom::Polynom(std::vector<double> coefficients)
     : N_(coefficients.size()), coeff_(coefficients) {}
 
 Polynom::Polynom(const nlohmann::json& config) {
-    if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
+    if(!config.contains("coefficients") || !config["coefficients"].is_array() || config["coefficients"].empty())
+        throw std::invalid_argument("Polynom: coefficients must be a non-empty array.");
 
     N_ = config["coefficients"].get<std::vector<double>>().size();
     coeff_ = config["coefficients"].get<std::vector<double>>();
-- 
2.43.0


From 7886db1984390d187f7496bad14a3cf0cf1fa6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 27/63] fix: Spline::Derivative replaces the pieces of the
 spline

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 938e313..f883a8a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -78,7 +78,7 @@ double Spline::evaluate(double x) {
 }
 
 void Spline::Derivative() {
-    for (auto spline : splines_)
+    for (auto& spline : splines_)
         spline = spline.GetDerivative();
 }
 
-- 
2.43.0


From de2f96bb822c68a98bdeea02efcb427074029e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 28/63] fix: a spline configuration with fewer than two points
 is refused

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index f883a8a..75f45f5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -48,6 +48,7 @@ Spline::Spline(const nlohmann::json& config) {
     y_ = config["y"].get<std::vector<double>>();
 
     if (x_.size() != y_.size()) throw std::invalid_argument("Spline: x and y must have same dimension");
+    if (x_.size() < 2) throw std::invalid_argument("Spline: at least two points are needed");
 }
 
 bool Spline::operator==(const Spline& spline) const {
-- 
2.43.0


From 2ec5c2e0bca39c18cd59ea8a5efc4b6447fbc300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 29/63] fix: spline files keep their precision, also in binary
 mode, and damage is noticed

---
 src/PROPOSAL/PROPOSAL/math/TableWriter.h     | 11 ++++++++---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/TableWriter.h b/src/PROPOSAL/PROPOSAL/math/TableWriter.h
index 7685d15..156236b 100644
--- a/src/PROPOSAL/PROPOSAL/math/TableWriter.h
+++ b/src/PROPOSAL/PROPOSAL/math/TableWriter.h
@@ -33,6 +33,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 
 class Table_write {
@@ -46,13 +47,16 @@ class Table_write {
 
     template <typename T>
     void write(T data) {
-        if (binary_)
+        if (binary_ && std::is_trivially_copyable<T>::value)
             file_.write(reinterpret_cast<char*>(&data), sizeof(data));
         else
             file_ << data << '\n';
     }
 
-    void close() { file_.close(); }
+    bool close() {
+        file_.close();
+        return !file_.fail();
+    }
 
    private:
     std::string path_;
@@ -72,7 +76,7 @@ class Table_read {
 
     template <typename T>
     void read(T& data) {
-        if (binary_)
+        if (binary_ && std::is_trivially_copyable<T>::value)
             file_.read(reinterpret_cast<char*>(&data), sizeof(data));
         else {
             file_ >> data;
@@ -85,6 +89,7 @@ class Table_read {
         }
     }
 
+    bool fail() const { return file_.fail(); }
     void close() { file_.close(); }
 
    private:
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 75f45f5..07570f2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -36,6 +36,8 @@ Spline::Spline(std::string path, bool binary) {
     reader.jump(2);
 
     reader.read(*this);
+    if (reader.fail())
+        throw std::runtime_error("Spline: " + path + " can not be read.");
 }
 
 Spline::Spline(const nlohmann::json& config) {
@@ -116,13 +118,13 @@ std::vector<spline_container> Spline::GetSplineContainer() const {
 
 bool Spline::save(std::string path, bool binary) {
     std::stringstream sstr;
+    sstr.precision(17);
     sstr << *this;
 
     Table_write writer(path, binary);
     writer.write(sstr.str());
-    writer.close();
 
-    return 1;
+    return writer.close();
 }
 
 namespace PROPOSAL {
@@ -138,9 +140,13 @@ std::ostream& operator<<(std::ostream& os, const Spline& s) {
 
 std::istream& operator>>(std::istream& is, Spline& s) {
     spline_container container;
+    s.splines_.clear();
+    s.subintervall_.clear();
 
     is >> s.n_subintervalls_;
-    for (unsigned int i = 0; i < s.n_subintervalls_; ++i) {
+    if (s.n_subintervalls_ == 0)
+        is.setstate(std::ios::failbit);
+    for (unsigned int i = 0; i < s.n_subintervalls_ && is; ++i) {
         is >> container;
         s.subintervall_.push_back(container.domain.first);
         s.splines_.push_back(Polynom(container.coeff));
@@ -159,10 +165,10 @@ std::ostream& operator<<(std::ostream& stream, spline_container& s) {
 }
 
 std::istream& operator>>(std::istream& is, spline_container& s) {
-    unsigned int degree;
+    unsigned int degree = 0;
     is >> s.domain.first >> s.domain.second >> degree;
     double a_i;
-    for (unsigned int i = 0; i < degree + 1; ++i) {
+    for (unsigned int i = 0; i < degree + 1 && is; ++i) {
         is >> a_i;
         s.coeff.push_back(a_i);
     }
-- 
2.43.0


From bedfc4c6cac404c9b2579ab08d16688ae7cb2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 30/63] fix: the depth along a radial axis grows away from its
 origin

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index ec0636a..9af63b2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -102,7 +102,7 @@ double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& dire
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
     aux.normalize();
 
-    return -aux * direction;
+    return aux * direction;
 }
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
-- 
2.43.0


From c05b789c27e48364c2fcc47231c720dc787b4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 31/63] fix: densities along different axes are not equal

---
 .../PROPOSAL/density_distr/density_distr.h      |  5 +++++
 .../PROPOSAL/density_distr/density_distr.cxx    | 17 +++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 8300c05..5b483fa 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -54,6 +54,8 @@ class Axis {
     auto GetFp0() const { return fp0_; };
 
    protected:
+    virtual bool compare(const Axis& axis) const;
+
     Cartesian3D fp0_;
 };
 }  // namespace PROPOSAL
@@ -90,6 +92,9 @@ class CartesianAxis : public Axis {
     double GetDepth(const Vector3D& xi) const override;
     double GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const override;
 
+   protected:
+    bool compare(const Axis& axis) const override;
+
    private:
     Cartesian3D fAxis_;
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 9af63b2..624a66d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -1,5 +1,6 @@
 
 #include <iostream>
+#include <typeinfo>
 #include "PROPOSAL/Logging.h"
 #include "PROPOSAL/density_distr/density_distr.h"
 #include "PROPOSAL/density_distr/density_exponential.h"
@@ -73,9 +74,11 @@ Axis::Axis(const nlohmann::json& config) {
 Axis::Axis(const Axis& axis) : fp0_(axis.fp0_) {}
 
 bool Axis::operator==(const Axis& axis) const {
-    if(fp0_ != axis.fp0_)
-        return false;
-    return true;
+    return compare(axis);
+}
+
+bool Axis::compare(const Axis& axis) const {
+    return typeid(*this) == typeid(axis) && fp0_ == axis.fp0_;
 }
 
 bool Axis::operator!=(const Axis& axis) const {
@@ -122,9 +125,11 @@ CartesianAxis::CartesianAxis(const nlohmann::json& config) : Axis(config) {
 }
 
 bool CartesianAxis::operator==(const CartesianAxis& axis) const {
-    if(fAxis_ != axis.fAxis_)
-        return false;
-    return Axis::operator==(axis);
+    return compare(axis);
+}
+
+bool CartesianAxis::compare(const Axis& axis) const {
+    return Axis::compare(axis) && fAxis_ == static_cast<const CartesianAxis&>(axis).fAxis_;
 }
 
 bool CartesianAxis::operator!=(const CartesianAxis& axis) const {
-- 
2.43.0


From ae17e3cd421401fd354f052f42abb19ce7de99b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 32/63] fix: densities can not be assigned, which shared and
 freed their axis twice

---
 src/PROPOSAL/PROPOSAL/density_distr/density_distr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 5b483fa..b53c03c 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -123,6 +123,8 @@ class Density_distr {
 
     virtual ~Density_distr() { delete axis_; };
 
+    Density_distr& operator=(const Density_distr&) = delete;
+
     virtual bool operator==(const Density_distr& dens_distr) const;
     virtual bool operator!=(const Density_distr& dens_distr) const;
     virtual bool compare(const Density_distr& dens_distr) const = 0;
-- 
2.43.0


From 1ae182b1b67a2bb4361635d8b71595258e08bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 33/63] fix: copies of a spline density own their splines and
 compare equal

---
 .../detail/PROPOSAL/density_distr/density_splines.cxx     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6933db5..4435190 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -19,8 +19,8 @@ Density_splines::Density_splines(const PROPOSAL::Axis& axis, const PROPOSAL::Spl
 
 Density_splines::Density_splines(const Density_splines& dens_splines)
     : Density_distr(dens_splines),
-      spline_(dens_splines.spline_),
-      integrated_spline_(dens_splines.integrated_spline_) {}
+      spline_(dens_splines.spline_->clone()),
+      integrated_spline_(dens_splines.integrated_spline_->clone()) {}
 
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
@@ -43,9 +43,9 @@ bool Density_splines::compare(const Density_distr& dens_distr) const {
     const Density_splines* dens_splines= dynamic_cast<const Density_splines*>(&dens_distr);
     if(!dens_splines)
         return false;
-    if( spline_!= dens_splines->spline_)
+    if( *spline_!= *dens_splines->spline_)
         return false;
-    if( integrated_spline_!= dens_splines->integrated_spline_)
+    if( *integrated_spline_!= *dens_splines->integrated_spline_)
         return false;
     return true;
 }
-- 
2.43.0


From 4c4a751fb1557d8946c31efe6b2947904868159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 34/63] fix: the inverse of a path integral uses its derivative

---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx        | 2 +-
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index b61cc00..647bcac 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -59,7 +59,7 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double l) const {
     (void)res;
     Cartesian3D dir_cartesian(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 4435190..f881388 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -63,7 +63,7 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double l) const {
     (void)res;
     auto dir_cartesian = Cartesian3D(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
-- 
2.43.0


From 467f57d88637dbf9daf6cce33b239110b38f85a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 35/63] fix: polynomial and spline densities integrate along
 the path

---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx     | 5 ++++-
 .../detail/PROPOSAL/density_distr/density_splines.cxx        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index 647bcac..41dcc85 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -87,8 +87,11 @@ double Density_polynomial::Integrate(const Vector3D& xi,
                                      double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
+    if (delta == 0)
+        return Evaluate(xi) * l;
+
     return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
-           (delta * delta);
+           delta;
 }
 
 double Density_polynomial::Calculate(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index f881388..f25adc4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -88,7 +88,10 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ / (delta * delta) *
+    if (delta == 0)
+        return Evaluate(xi) * l;
+
+    return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
-- 
2.43.0


From c394089c6fba13865c794bc1dd2a589c9dc4993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 36/63] fix: exponential densities are defined across and near
 the direction of constant density

---
 .../PROPOSAL/density_distr/density_exponential.cxx     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
index 02f75e7..f5a2a9d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
@@ -48,7 +48,10 @@ double Density_exponential::Correct(const Vector3D& xi,
     double phi = GetDepth(xi);
     double delta = GetEffectiveDistance(xi, direction);
 
-    double aux = 1. / delta * std::log(1 + std::exp(-phi) * res * delta / massDensity_);
+    if (delta == 0)
+        return res / Evaluate(xi);
+
+    double aux = 1. / delta * std::log1p(std::exp(-phi) * res * delta / massDensity_);
 
     if (std::isnan(aux))
         throw DensityException("Next interaction point lies in infinite.");
@@ -61,7 +64,10 @@ double Density_exponential::Integrate(const Vector3D& xi,
                                       double l) const {
     double delta = GetEffectiveDistance(xi, direction);
 
-    return massDensity_ * std::exp(GetDepth(xi) + l * delta) / delta;
+    if (delta == 0)
+        return Evaluate(xi) * l;
+
+    return massDensity_ * std::exp(GetDepth(xi)) * std::expm1(l * delta) / delta;
 }
 
 double Density_exponential::Calculate(const Vector3D& xi,
-- 
2.43.0


From fc82484b6e2e632e3bf5f47f57c4e20a455f800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 37/63] fix: the derivative of a constant Polynom can be
 evaluated

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index e9461ca..a7e9c1e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -80,6 +80,8 @@ Polynom Polynom::GetDerivative() {
 
     for (auto i = 1; i < N_; ++i)
         derivative_coeff_.push_back(coeff_[i] * i);
+    if (derivative_coeff_.empty())
+        derivative_coeff_.push_back(0);
 
     return Polynom(derivative_coeff_);
 }
-- 
2.43.0


From d647cd4839cb4aa0e00b6caf5b4f3f93f3084bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 38/63] fix: a box is met by rays through its edges and corners

A ray through an edge meets two faces (a diagonal through two edges four) at
the same distance; the hits were counted one by one, so that a particle in the
middle of a box moving towards an edge was reported to be in front of it, and
a diagonal ray to miss it.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx | 204 +++---------------
 1 file changed, 27 insertions(+), 177 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 6000455..154e408 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -1,6 +1,7 @@
 
+#include <algorithm>
 #include <cmath>
-#include <vector>
+#include <limits>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -79,191 +80,40 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    std::pair<double, double> distance;
-    double t;
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
+    std::pair<double, double> distance(-1, -1);
 
-    std::vector<double> dist;
+    const double half_length[3] = { 0.5 * x_, 0.5 * y_, 0.5 * z_ };
 
-    double x_calc_pos = position_.GetX() + 0.5 * x_;
-    double x_calc_neg = position_.GetX() - 0.5 * x_;
-    double y_calc_pos = position_.GetY() + 0.5 * y_;
-    double y_calc_neg = position_.GetY() - 0.5 * y_;
-    double z_calc_pos = position_.GetZ() + 0.5 * z_;
-    double z_calc_neg = position_.GetZ() - 0.5 * z_;
+    // The trajectory is inside the box where it is between both planes of each
+    // of the three pairs
+    double t_enter = -std::numeric_limits<double>::infinity();
+    double t_leave = std::numeric_limits<double>::infinity();
 
-    // intersection with E1
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E1
-    {
-        t = (x_calc_pos - pos_vec.GetX()) / dir_vec.GetX();
+    for (int i = 0; i < 3; i++) {
+        double neg = position_[i] - half_length[i];
+        double pos = position_[i] + half_length[i];
 
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E2
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E2
-    {
-        t = (x_calc_neg - pos_vec.GetX()) / dir_vec.GetX();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E3
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E3
-    {
-        t = (y_calc_pos - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E4
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E4
-    {
-        t = (y_calc_neg - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
+        if (dir_vec[i] == 0) { // particle trajectory is parallel to these planes
+            if (pos_vec[i] < neg || pos_vec[i] > pos)
+                return distance;
+            continue;
         }
-    }
-
-    // intersection with E5
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E5
-    {
-        t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E6
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E6
-    {
-        t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
 
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
+        double t_neg = (neg - pos_vec[i]) / dir_vec[i];
+        double t_pos = (pos - pos_vec[i]) / dir_vec[i];
+        t_enter = std::max(t_enter, std::min(t_neg, t_pos));
+        t_leave = std::min(t_leave, std::max(t_neg, t_pos));
     }
 
-    if (dist.size() < 1) // No intersection with the box
-    {
-        distance.first  = -1;
-        distance.second = -1;
-    } else if (dist.size() == 1) // Particle is inside the box and we have one
-                                 // intersection in direction of the particle
-                                 // trajectory
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
-    } else if (dist.size() == 2) // Particle is outside and the box is infront
-                                 // of the particle trajectory ( two
-                                 // intersections).
-    {
-        if (dist.at(0) == dist.at(1)) {
-            // Both distances are equal, this means he have hit an edge of the box
-            distance.first = dist.at(0);
-            distance.second = -1;
-        }
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else if (dist.size() == 3 && dist.at(0) == dist.at(1) && dist.at(1) == dist.at(2))
-    {
-        // We have three intersections, all of them are equal, this means we
-        // hit an corner of the box
-        distance.first = dist.at(0);
-        distance.second = -1;
-    } else
-    {
-        Logging::Get("proposal.geometry")->error("This point should never be reached... (-1/-1) is returned");
+    // No direction at all
+    if (t_leave == std::numeric_limits<double>::infinity())
+        return distance;
 
-        distance.first  = -1;
-        distance.second = -1;
+    // Particle is inside the box (one intersection in direction of the particle
+    // trajectory) or outside and the box is infront of it (two intersections)
+    if (t_enter < t_leave) {
+        distance.first = t_enter;
+        distance.second = t_leave;
     }
 
     // Make a computer precision controll!
-- 
2.43.0


From eb0d582e379c03634d088ebaa9dd036bb76f06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 39/63] fix: staus are registered with the other built-in
 particles

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index c567841..788a11a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -275,6 +275,8 @@ std::unordered_map<int, ParticleDef> ParticleDef::create_particle_map() {
         { static_cast<int>(ParticleType::K0), K0Def() },
         { static_cast<int>(ParticleType::KPlus), KPlusDef() },
         { static_cast<int>(ParticleType::KMinus), KMinusDef() },
+        { static_cast<int>(ParticleType::STauMinus), StauMinusDef() },
+        { static_cast<int>(ParticleType::STauPlus), StauPlusDef() },
         { static_cast<int>(ParticleType::Monopole), MonopoleDef() },
         { static_cast<int>(ParticleType::SMPPlus), SMPPlusDef() },
         { static_cast<int>(ParticleType::SMPMinus), SMPMinusDef() }};
-- 
2.43.0


From 37f96cea517db3da0903f5b02cbf0a7464a8180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 40/63] fix: the lifetime of the K0 is that of a stable
 particle, not negative

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index 788a11a..4e9bafc 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -572,7 +572,7 @@ PARTICLE_IMP(Pi0, MPI0, LPI0, 0.0, static_cast<int>(ParticleType::Pi0))
 PARTICLE_IMP(PiMinus, MPI, LPI, -1.0, static_cast<int>(ParticleType::PiMinus))
 PARTICLE_IMP(PiPlus, MPI, LPI, 1.0, static_cast<int>(ParticleType::PiPlus))
 
-PARTICLE_IMP(K0, MKAON, -1.0, 0.0, static_cast<int>(ParticleType::K0))
+PARTICLE_IMP(K0, MKAON, STABLE_PARTICLE, 0.0, static_cast<int>(ParticleType::K0))
 PARTICLE_IMP(KMinus, MKAON, LKAON, -1.0, static_cast<int>(ParticleType::KMinus))
 PARTICLE_IMP(KPlus, MKAON, LKAON, 1.0, static_cast<int>(ParticleType::KPlus))
 
-- 
2.43.0


From 1e12fb0cc9e5b27c5bc208dcd533f908ed88fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 41/63] fix: running out of memory does not lose the built-in
 particles

An allocation that failed while the first use of ParticleDef filled the map of
built-in particles left it incomplete for the rest of the process.
---
 .../detail/PROPOSAL/particle/ParticleDef.cxx   | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index 4e9bafc..b22bd92 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -74,8 +74,13 @@ std::ostream& operator<<(std::ostream& os, ParticleDef const& def)
 ParticleDef ParticleDef::GetParticleDefForType(int type) {
     if (!Type_Particle_Map) {
         Type_Particle_Map = std::make_unique<std::unordered_map<int, ParticleDef>>();
-        for (const auto& p: create_particle_map())
-            Type_Particle_Map->insert(p);
+        try {
+            for (const auto& p: create_particle_map())
+                Type_Particle_Map->insert(p);
+        } catch (...) {
+            Type_Particle_Map.reset(); // not to be left incomplete
+            throw;
+        }
     }
 
     auto p_search = Type_Particle_Map->find(type);
@@ -164,8 +169,13 @@ ParticleDef::ParticleDef(std::string name, double mass, double low,
 {
     if (!Type_Particle_Map) {
         Type_Particle_Map = std::make_unique<std::unordered_map<int, ParticleDef>>();
-        for (const auto& p: create_particle_map())
-            Type_Particle_Map->insert(p);
+        try {
+            for (const auto& p: create_particle_map())
+                Type_Particle_Map->insert(p);
+        } catch (...) {
+            Type_Particle_Map.reset(); // not to be left incomplete
+            throw;
+        }
     }
 
     auto it = Type_Particle_Map->find(particle_type);
-- 
2.43.0


From e7f6a7d0a235e955c0b72e9f5f45e92abf7dc899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 42/63] fix: a state that cannot be recorded leaves the track
 consistent

Running out of memory while a state was appended left a track with more states
than interaction types, which every later query of the losses reads.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9f4de31..fdd632c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -33,9 +33,15 @@ void Secondaries::reserve(size_t number_secondaries)
 void Secondaries::push_back(const ParticleState& point,
                             const InteractionType& type, const size_t& target_hash)
 {
-    track_.push_back(point);
-    types_.push_back(type);
-    target_hashes_.push_back(target_hash);
+    try {
+        types_.push_back(type);
+        target_hashes_.push_back(target_hash);
+        track_.push_back(point);
+    } catch (...) {
+        types_.resize(track_.size());
+        target_hashes_.resize(track_.size());
+        throw;
+    }
 }
 
 void Secondaries::emplace_back(const ParticleType& particle_type, const Vector3D& position,
@@ -43,10 +49,8 @@ void Secondaries::emplace_back(const ParticleType& particle_type, const Vector3D
     const double& distance, const InteractionType& interaction_type,
     const size_t& target_hash)
 {
-    track_.emplace_back(particle_type, position, direction, energy, time,
-                        distance);
-    types_.emplace_back(interaction_type);
-    target_hashes_.push_back(target_hash);
+    push_back(ParticleState(particle_type, position, direction, energy, time,
+                            distance), interaction_type, target_hash);
 }
 
 std::vector<ParticleState> Secondaries::GetDecayProducts() const
-- 
2.43.0


From e2f745eac98c9b8a6fca4dccd0a4bdd3bd641cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 43/63] fix: GetStateForEnergy searches the step, not the
 distance before it

The length of the step was passed with the wrong sign, so that the search for
the distance in an inhomogeneous density was confined to an interval behind the
starting point.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index fdd632c..2c2cab8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -97,7 +97,7 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
                 displacement.normalize();
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
-                        track_[i-1].propagated_distance - track_[i].propagated_distance);
+                        track_[i].propagated_distance - track_[i-1].propagated_distance);
             } else {
                 return track_[i-1];
             }
-- 
2.43.0


From ce963f028734d82df379d3330be3f7d3f871739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 44/63] fix: times of intermediate states are calculated from
 the grammage

PropagationUtility::TimeElapsed expects a grammage and was given a distance, so
that without exact time calculation the time was wrong by a factor of the
density.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 2c2cab8..25ea37d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -314,7 +314,7 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
 
@@ -339,7 +339,7 @@ ParticleState Secondaries::RePropagateDistance(const ParticleState& init,
                                                displacement);
     auto E_f = utility.EnergyDistance(init.energy, advance_grammage);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
     return ParticleState((ParticleType)primary_def_->particle_type, new_position,
-- 
2.43.0


From e5f5050f918583983a358aa5731c4c812517aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 45/63] fix: losses of an unknown interaction type are refused

The end of the list of types was dereferenced after a log message.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 25ea37d..b0a777f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -435,7 +435,7 @@ std::vector<StochasticLoss> Secondaries::GetStochasticLosses(
         return p.second == interaction_type;
     });
     if (it == Type_Interaction_Name_Map.end())
-        Logging::Get("proposal.secondaries")->critical("Could not find interaction type {}", interaction_type);
+        throw std::invalid_argument("Could not find interaction type " + interaction_type);
 
     return GetStochasticLosses(it->first);
 }
-- 
2.43.0


From 0fbdecdc69d3cc894b706c55d3abf1b31216ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 46/63] fix: GetELost for tracks that start or end in the
 geometry or miss it

The entry or exit point that does not exist was dereferenced.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index b0a777f..af68d80 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -167,9 +167,16 @@ std::vector<double> Secondaries::GetTrackPropagatedDistances() const
 
 double Secondaries::GetELost(const Geometry& geometry) const
 {
+    if (!HitGeometry(geometry))
+        return 0.;
+
+    // Without an entry point the track starts inside of the geometry, without
+    // an exit point it ends there
     auto entry_point = GetEntryPoint(geometry);
     auto exit_point = GetExitPoint(geometry);
-    return entry_point->energy - exit_point->energy;
+    auto energy_i = entry_point ? entry_point->energy : track_.front().energy;
+    auto energy_f = exit_point ? exit_point->energy : track_.back().energy;
+    return energy_i - energy_f;
 }
 
 std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
-- 
2.43.0


From 629dad64324db6b14590fa769faa2684fea9d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 47/63] fix: HitGeometry with stochastic losses and with hollow
 geometries

The direction between the states before and after a stochastic loss is not a
number, and what the geometry makes of it was returned. A step into the cavity
of a hollow geometry was not counted as a hit.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index af68d80..47748a5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -282,14 +282,18 @@ bool Secondaries::HitGeometry(const Geometry& geometry) const {
         auto pos_a = track_[i].position;
         auto pos_b = track_[i+1].position;
         auto disp = (pos_b - pos_a);
+        auto dist_a_b = disp.magnitude();
+        if (dist_a_b == 0)
+            continue; // stochastic loss or decay, the position is unchanged
         disp.normalize();
 
         // check if first track point lies inside geometry
         if (geometry.IsInside(pos_a, disp))
             return true;
 
-        // check if geometry lies between two track points
-        if (geometry.IsInfront(pos_a, disp) && geometry.IsBehind(pos_b, disp))
+        // check if a border of the geometry lies between two track points
+        auto distance = geometry.DistanceToBorder(pos_a, disp).first;
+        if (distance >= 0 && distance <= dist_a_b)
             return true;
     }
 
-- 
2.43.0


From 79b44d46ce0cec943680fded0252fd6fd3e18bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:23 +0000
Subject: [PATCH 48/63] fix: closest approach of a bent track

The first step with a closest approach within it (or behind its beginning) was
taken, even if a later step of a scattered particle comes closer to the center.
---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 47 +++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 47748a5..1964c14 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -253,28 +253,43 @@ std::shared_ptr<ParticleState> Secondaries::GetClosestApproachPoint(
    if (track_.size() == 1)
        return std::make_unique<ParticleState>(track_.front());
 
-    for (unsigned int i = 0; i < track_.size() - 1; i++) {
-        auto pos_i = track_[i].position;
-        auto pos_f = track_[i+1].position;
+    // find the step which comes closest to the center of the geometry. The
+    // track may be bent, so there can be several steps approaching the center.
+    unsigned int closest_step = 0;
+    double closest_approach = 0.;
+    auto smallest_distance
+        = (track_.front().position - geometry.GetPosition()).magnitude();
 
-        auto displacement = pos_f - pos_i;
+    for (unsigned int i = 0; i < track_.size() - 1; i++) {
+        auto displacement = track_[i+1].position - track_[i].position;
         auto dist_i_f = displacement.magnitude();
+        if (dist_i_f == 0)
+            continue; // stochastic loss or decay, the position is unchanged
         displacement.normalize();
 
-        auto distance_to_closest_approach
-            = geometry.DistanceToClosestApproach(pos_i, displacement);
-        if (std::abs(distance_to_closest_approach - dist_i_f) <= PARTICLE_POSITION_RESOLUTION) {
-            return std::make_unique<ParticleState>(track_[i+1]);
-        } else if (distance_to_closest_approach < dist_i_f) {
-            if (distance_to_closest_approach < PARTICLE_POSITION_RESOLUTION)
-                return std::make_unique<ParticleState>(track_[i]);
-
-            auto closest_approach = RePropagateDistance(
-                    track_[i], displacement, distance_to_closest_approach);
-            return std::make_unique<ParticleState>(closest_approach);
+        auto approach = geometry.DistanceToClosestApproach(
+                track_[i].position, displacement);
+        approach = std::min(std::max(approach, 0.), dist_i_f);
+        auto distance = (track_[i].position + displacement * approach
+                         - geometry.GetPosition()).magnitude();
+        if (distance < smallest_distance) {
+            closest_step = i;
+            closest_approach = approach;
+            smallest_distance = distance;
         }
     }
-    return std::make_unique<ParticleState>(track_.back());
+
+    auto displacement
+        = track_[closest_step+1].position - track_[closest_step].position;
+    auto dist_i_f = displacement.magnitude();
+    if (closest_approach < PARTICLE_POSITION_RESOLUTION)
+        return std::make_unique<ParticleState>(track_[closest_step]);
+    if (dist_i_f - closest_approach <= PARTICLE_POSITION_RESOLUTION)
+        return std::make_unique<ParticleState>(track_[closest_step+1]);
+
+    displacement.normalize();
+    return std::make_unique<ParticleState>(RePropagateDistance(
+            track_[closest_step], displacement, closest_approach));
 }
 
 bool Secondaries::HitGeometry(const Geometry& geometry) const {
-- 
2.43.0


From e4975709500dd41852e19be53e7081b31840dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 49/63] fix: integration over an interval of a few units of
 precision never ended

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 0a3ae7c..eb9f3d1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -660,7 +660,9 @@ double Integral::Trapezoid(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    // count the points: a step below the precision of xStep does not move it
+    xStep = min_ + stepSize / 2;
+    for (int i = 0; i < n; i++, xStep += stepSize)
     {
         resultSum += Function(xStep);
     }
@@ -683,7 +685,8 @@ double Integral::Trapezoid3(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    xStep = min_ + stepSize / 2;
+    for (int i = 0; i < n; i += 3, xStep += stepSize)
     {
         resultSum += Function(xStep);
         xStep += 2 * stepSize;
@@ -725,7 +728,8 @@ double Integral::Trapezoid3S(int n, double oldSum, int stepNumber)
     }
     resultSum = 0;
     flag      = false;
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    xStep     = min_ + stepSize / 2;
+    for (int i = 0; i < n; i += 3, xStep += stepSize)
     {
         resultSum += functionValue1 = Function(xStep);
         xStep += 2 * stepSize;
-- 
2.43.0


From 5e7afa64272ca9377a18d9fe4dda90d96c771e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 50/63] fix: sampled interaction was refused for random numbers
 next to one

---
 .../PROPOSAL/propagation_utility/Interaction.cxx     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
index 2eb8352..42749e1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/propagation_utility/Interaction.cxx
@@ -54,6 +54,18 @@ Interaction::Loss Interaction::SampleLoss(
         return {InteractionType::Undefined, 0, 0};
     }
 
+    // rnd < 1, but the differences of the rates may not add up to the sum
+    if (rnd < 1.) {
+        for (auto r = rates.rbegin(); r != rates.rend(); ++r) {
+            if (r->rate > 0.) {
+                auto loss = r->crosssection->CalculateStochasticLoss(
+                    r->comp_hash, energy, 0.);
+                return { r->crosssection->GetInteractionType(), r->comp_hash,
+                    loss };
+            }
+        }
+    }
+
     std::stringstream ss;
     ss << "Given rate (" << std::to_string(sampled_rate)
        << ") for given energy (" << std::to_string(energy)
-- 
2.43.0


From 8764de93a65b64c8e00a537f2c4fabe4ee7ad1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:48 +0000
Subject: [PATCH 51/63] fix: normally distributed energies left their limits in
 the tails

---
 src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index 46208bb..057ddeb 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <utility>
 #include <fstream>
@@ -409,7 +410,12 @@ double SampleFromGaussian(double mean, double sigma, double rnd, double min, dou
     auto xlo = 0.5 + std::erf((min - mean) / (SQRT2 * sigma)) / 2;
     auto xhi = 0.5 + std::erf((max - mean) / (SQRT2 * sigma)) / 2;
     auto rndtmp = xlo + (xhi - xlo) * rnd;
-    return sigma * normalppf(rndtmp)  + mean;
+    // both tails of the error function are lost to its limited precision
+    if (rndtmp <= 0)
+        return min;
+    if (rndtmp >= 1)
+        return max;
+    return std::min(std::max(sigma * normalppf(rndtmp) + mean, min), max);
 }
 
 double SampleFromExponential(double p, double lambda) {
-- 
2.43.0


From 8a402bb0745b06cec20316e8515dac9822ebf1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:47 +0000
Subject: [PATCH 52/63] fix: a particle outside of all sectors dereferenced
 end()

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index e6f88c2..9789b26 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -349,6 +349,7 @@ Sector Propagator::GetCurrentSector(
                                                       spherical_position.GetX(),
                                                       spherical_position.GetY(),
                                                       spherical_position.GetZ());
+        throw std::runtime_error("No sector defined at particle position.");
     }
     auto highest_sector_iter = std::max_element(
         potential_sec.begin(), potential_sec.end(), [](Sector* a, Sector* b) {
-- 
2.43.0


From 73757448c5662cd64f39c267dc7eacf1bbaf2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:47 +0000
Subject: [PATCH 53/63] fix: particles below the energy limit or beyond the
 maximal distance were propagated backwards

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 9789b26..ee2224b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -77,6 +77,12 @@ Secondaries Propagator::Propagate(const ParticleState& initial_particle,
 
         InteractionEnergy[MinimalE] = std::max(
                 min_energy, utility.collection.displacement_calc->GetLowerLim());
+
+        // There is no step left to be taken (a step would be of negative length)
+        if (state.energy < InteractionEnergy[MinimalE]
+            || state.propagated_distance > max_distance)
+            break;
+
         InteractionEnergy[Decay] = utility.EnergyDecay(
             state.energy, rnd, density->Evaluate(state.position));
         InteractionEnergy[Stochastic]
-- 
2.43.0


From d944dfac75cee91f530467ec6c979a71c1ca3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:47 +0000
Subject: [PATCH 54/63] fix: the continuous randomization reused a random
 number of the multiple scattering

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index ee2224b..f97feac 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -303,7 +303,7 @@ int Propagator::AdvanceParticle(ParticleState &state,
     if (min_energy_step && advancement_type == ReachedInteraction)
         state.energy = energy; // we reached a specific energy, no randomization
     else
-        state.energy = utility.EnergyRandomize(state.energy, energy, rnd, min_energy);
+        state.energy = utility.EnergyRandomize(state.energy, energy, rnd_generator, min_energy);
 
     return advancement_type;
 }
-- 
2.43.0


From 00bd1e1d11ce115cfcd2d02eabd1664a70fe00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:51 +0000
Subject: [PATCH 55/63] fix: the step length was searched beyond the sector,
 where its density distribution is meaningless

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 25 ++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index f97feac..9d82aad 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -188,6 +188,18 @@ int Propagator::AdvanceParticle(ParticleState &state,
         return random_numbers[i++%4];
     };
 
+    // Distance corresponding to a grammage. The density distribution may only be
+    // meaningful inside the sector, so we look for a solution there at first.
+    auto calculate_distance = [&](double grammage_step, double max_search) {
+        for (double limit : { max_search, max_distance }) {
+            try {
+                return density->Correct(state.position, state.direction, grammage_step, limit);
+            } catch (const DensityException&) {
+            }
+        }
+        return INF;
+    };
+
     int num_steps = 0; // count number of iteration steps
     bool backscatter = false;
 
@@ -199,11 +211,8 @@ int Propagator::AdvanceParticle(ParticleState &state,
         if (energy != -1 && distance == -1) {
             // Calculate grammage and distance from given energy
             grammage = utility.LengthContinuous(state.energy, energy);
-            try {
-                distance = density->Correct(state.position, state.direction, grammage, max_distance);
-            } catch (const DensityException&) {
-                distance = INF;
-            }
+            auto border = CalculateDistanceToBorder(state.position, state.direction, *geometry);
+            distance = calculate_distance(grammage, border > 0 ? std::min(border, max_distance) : max_distance);
         } else if (energy == -1 && distance != -1) {
             // Calculate energy and grammage from given distance
             auto grammage_step = density->Calculate(state.position, state.direction, distance);
@@ -221,11 +230,7 @@ int Propagator::AdvanceParticle(ParticleState &state,
                                                            "random numbers. Resample set of random numbers.");
                 grammage = grammage_next_interaction;
                 energy = energy_next_interaction;
-                try {
-                    distance = density->Correct(state.position, state.direction, grammage, max_distance);
-                } catch (const DensityException&) {
-                    distance = INF;
-                }
+                distance = calculate_distance(grammage, distance);
             }
         } else {
             throw std::logic_error("Error in AdvanceParticle: Either both distance and final energy for the next "
-- 
2.43.0


From a22b59ea3a3587818190a93aec0a26c046505ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:51 +0000
Subject: [PATCH 56/63] fix: a step without a valid combination of length and
 scattering ignored the next interaction and the maximal distance

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 9d82aad..d14d615 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -246,20 +246,28 @@ int Propagator::AdvanceParticle(ParticleState &state,
         double distance_to_border = CalculateDistanceToBorder(state.position, mean_direction, *geometry);
         bool is_inside = geometry->IsInside(state.position, mean_direction);
 
-        if (num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
+        if (is_inside && num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
             // too many iteration steps!
             Logging::Get("proposal.propagator")->warn("Maximal number of iteration step exceeded ({}). "
                                                       "Proposed propagation step is {} cm, while distance to border is "
                                                       "{} cm (difference of {} cm). Initial energy particle {} MeV, "
-                                                      "particle energy after step {} MeV. Propagate to border and "
-                                                      "continue propagation.",
+                                                      "particle energy after step {} MeV. Propagate to border or next "
+                                                      "interaction and continue propagation.",
                                                       PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS, distance,
                                                       distance_to_border, std::abs(distance - distance_to_border),
                                                       state.energy, energy);
-            distance = distance_to_border;
+            distance = std::min(distance_to_border, max_distance);
             grammage = density->Calculate(state.position, state.direction, distance);
-            energy = utility.EnergyDistance(state.energy, grammage);
-            advancement_type = ReachedBorder;
+            if (grammage < grammage_next_interaction) {
+                energy = utility.EnergyDistance(state.energy, grammage);
+                advancement_type = distance_to_border <= max_distance ? ReachedBorder : ReachedMaxDistance;
+            } else {
+                // the next interaction happens before
+                grammage = grammage_next_interaction;
+                energy = energy_next_interaction;
+                distance = std::min(distance, calculate_distance(grammage, distance));
+                advancement_type = ReachedInteraction;
+            }
         } else if (!is_inside) {
             // Special case: We are on the sector border, but scattering back outside the current sector!
             // Update sector and recalculate values
-- 
2.43.0


From 4641dece2b76e2cff5596db5aaba851ec2f2c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:52 +0000
Subject: [PATCH 57/63] fix: scattering into a sector of a higher hierarchy was
 not detected

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index d14d615..7bec77a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -244,7 +244,7 @@ int Propagator::AdvanceParticle(ParticleState &state,
 
         // Check step
         double distance_to_border = CalculateDistanceToBorder(state.position, mean_direction, *geometry);
-        bool is_inside = geometry->IsInside(state.position, mean_direction);
+        bool is_inside = get<GEOMETRY>(GetCurrentSector(state.position, mean_direction)) == geometry;
 
         if (is_inside && num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
             // too many iteration steps!
-- 
2.43.0


From f353754bee060b07ebddc6476f9164285b1efb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 58/63] fix: a cylinder is met by rays through its rims

A ray through a rim (where barrel and end face join) met both or none of the two
surfaces there, so that a particle inside was taken to be in front of the
cylinder, and one far away to be inside.
---
 .../detail/PROPOSAL/geometry/Cylinder.cxx     | 469 +++---------------
 1 file changed, 63 insertions(+), 406 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 33efae7..104f708 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -1,6 +1,8 @@
 
+#include <algorithm>
 #include <cmath>
-#include <vector>
+#include <limits>
+#include <tuple>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -88,422 +90,78 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     // ( dist_1 / -1 ) particle is inside the cylinder or on border and moving
     // inside
 
-    double A, B, C, t1, t2, t;
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    double determinant;
+    std::pair<double, double> distance(-1, -1);
 
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
+    const double INFINITE = std::numeric_limits<double>::infinity();
 
-    std::vector<double> dist;
+    // Position relative to the center of the cylinder
+    double x = pos_vec.GetX() - position_.GetX();
+    double y = pos_vec.GetY() - position_.GetY();
+    double z = pos_vec.GetZ() - position_.GetZ();
 
-    std::pair<double, double> distance;
+    // Part of the trajectory that is inside an infinitely long barrel
+    // (empty if t_enter >= t_leave)
+    auto barrel = [&](double radius) -> std::pair<double, double> {
+        double A = x * x + y * y - radius * radius;
+        double B = 2 * (x * dir_vec.GetX() + y * dir_vec.GetY());
+        double C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
 
-    double z_calc_pos = position_.GetZ() + 0.5 * z_;
-    double z_calc_neg = position_.GetZ() - 0.5 * z_;
-
-    if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0)) // Otherwise the particle
-                                             // trajectory is parallel to
-                                             // cylinder barrel
-    {
-
-        A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-            std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-            radius_*radius_;
-
-        B = 2 * ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-        C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
+        if (C == 0) { // particle trajectory is parallel to cylinder barrel
+            if (A < 0)
+                return { -INFINITE, INFINITE };
+            return { 0, 0 };
+        }
 
         B /= C;
         A /= C;
-
-        determinant = 0.25 * B*B - A;
-
-        if (determinant > 0) // determinant == 0 (boundery point) is ignored
-        {
-            t1 = -1 * B / 2 + std::sqrt(determinant);
-            t2 = -1 * B / 2 - std::sqrt(determinant);
-
-            // Computer precision controll
-            if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                t1 = 0;
-            if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                t2 = 0;
-
-            if (t1 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t1);
-                }
-            }
-
-            if (t2 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t2);
-                }
-            }
-        }
-    }
-
-    // if we have found already to intersections we don't have to check for
-    // intersections
-    // with top or bottom surface
-    if (dist.size() < 2)
-    {
-        // intersection with E1
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E1 (Should not happen)
-        {
-            t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
-
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
-        }
-
-        // intersection with E2
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E2 (Should not happen)
-        {
-            t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
-
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
-
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
-        }
+        double determinant = 0.25 * B * B - A;
+        if (!(determinant > 0)) // determinant == 0 (boundery point) is ignored
+            return { 0, 0 };
+        return { -0.5 * B - std::sqrt(determinant), -0.5 * B + std::sqrt(determinant) };
+    };
+
+    // Part of the trajectory that is inside the (filled) cylinder: inside the
+    // outer barrel and between top and bottom surface
+    double t_enter, t_leave;
+    std::tie(t_enter, t_leave) = barrel(radius_);
+    if (dir_vec.GetZ() != 0) {
+        double t_top = (0.5 * z_ - z) / dir_vec.GetZ();
+        double t_bottom = (-0.5 * z_ - z) / dir_vec.GetZ();
+        t_enter = std::max(t_enter, std::min(t_top, t_bottom));
+        t_leave = std::min(t_leave, std::max(t_top, t_bottom));
+    } else if (std::abs(z) >= 0.5 * z_) {
+        return distance;
     }
-    // No intersection with the outer cylinder
-    if (dist.size() < 1)
-    {
-        distance.first  = -1;
-        distance.second = -1;
-        //    return distance;
-    } else if (dist.size() == 1) // particle is inside the cylinder
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
-
-    } else if (dist.size() == 2) // cylinder is infront of the particle
-    {
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else
-    {
-        Logging::Get("proposal.geometry")->error("This point should never be reached");
+    if (t_leave - t_enter < GEOMETRY_PRECISION || t_leave == INFINITE)
+        return distance;
+
+    // The cylinder might be hollow: part of it that is inside the inner barrel
+    double t_hole_enter = t_leave;
+    double t_hole_leave = t_leave;
+    if (inner_radius_ > 0) {
+        auto hole = barrel(inner_radius_);
+        hole.first = std::max(hole.first, t_enter);
+        hole.second = std::min(hole.second, t_leave);
+        if (hole.second - hole.first >= GEOMETRY_PRECISION)
+            std::tie(t_hole_enter, t_hole_leave) = hole;
     }
-    // This cylinder might be hollow and we have to check if the inner border is
-    // reached before.
-    // So we caluculate the intersection with the inner cylinder.
-
-    if (inner_radius_ > 0)
-    {
-        if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0))
-        {
 
-            A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-                inner_radius_*inner_radius_;
-
-            B = 2 *
-                ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-            C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
-
-            B /= C;
-            A /= C;
-
-            determinant = 0.25 * B*B - A;
-
-            if (determinant > 0) // determinant == 0 (boundery point) is ignored
-            {
-                t1 = -1 * B / 2 + std::sqrt(determinant);
-                t2 = -1 * B / 2 - std::sqrt(determinant);
-
-                // Computer precision controll
-                if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                    t1 = 0;
-                if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                    t2 = 0;
-
-                // Ok we have a intersection with the inner cylinder
-
-                // If distance.first and distance.second are positive this means
-                // the cylinder is infornt of the particle. So the first
-                // distance
-                // ( intersection with the outer border) does not change
-                // but the second distance has to be updated (intersection with
-                // the inner border)
-                if (distance.first > 0 && distance.second > 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t1 < distance.second)
-                                distance.second = t1;
-                        }
-                    }
-
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t2 < distance.second)
-                                distance.second = t2;
-                        }
-                    }
-                }
-                // The particle trajectory hits the inner cylinder first
-                // (particle flys through the hole and hits inner cylinder
-                // barrel first)
-                //  ___  ^     ___
-                // |   |  \   |   |
-                // |   |   \  |   |
-                // |   |    \ |   |
-                // |   |     \|   |
-                // |   |      *   |
-                // |   |      |\  |
-                // |   |      | x |
-                // |   |      |   |
-                // |___|      |___|
-                else if (distance.first < 0 && distance.second < 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t1;
-                        }
-                    }
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t2;
-                        }
-                    }
-                }
-                // The particle is inside the outer cylinder
-                // or particle hits bottom or top surface and then hits
-                // the inner cylinder barrel
-                else
-                {
-                    // The inner cylinder is infront of the particle trajectory
-                    // distance.first has to be updated
-                    if (t1 > 0 && t2 > 0)
-                    {
-                        //  _____        _____
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // | x---*----->|     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |_____|      |_____|
-                        //
-                        if (pos_vec.GetZ() >= z_calc_neg - GEOMETRY_PRECISION &&
-                            pos_vec.GetZ() <= z_calc_pos + GEOMETRY_PRECISION &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) <=
-                                radius_ + GEOMETRY_PRECISION &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) >=
-                                inner_radius_ - GEOMETRY_PRECISION)
-                        {
-                            if (t1 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t1;
-                                }
-                            }
-                            if (t2 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t2;
-                                }
-                            }
-                        }
-                        //               ^
-                        //  _____       / _____
-                        // |     |     / |     |
-                        // |     |    /  |     |
-                        // |     |   /   |     |
-                        // |     |  /    |     |
-                        // |     | /     |     |
-                        // |     |/      |     |
-                        // |     *       |     |
-                        // |    /|       |     |
-                        // |___/_|       |_____|
-                        //    *
-                        //   x
-                        else
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                // This case means particle is inside in hits
-                                // inner cylinder first
-                                distance.second = t1;
-                            }
-
-                            if (distance.second < 0)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.second = t2;
-                                }
-                            }
-                        }
-                    }
-                    // The particle is inside the inner cylinder
-                    // this means distance.second becomes distanc.first
-                    // and distance.first beomces distance to intersection with
-                    // the inner cylinder in direction of the particle
-                    // trajectory
-                    //  _____        _____
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |  x---*-----*------->
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |_____|      |_____|
-                    //
-                    if ((t1 > 0 && t2 < 0) || (t2 > 0 && t1 < 0))
-                    {
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        } else
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                    }
-                    // Now we have to check if the particle is on the border of
-                    // the inner sphere
-                    if (t1 == 0)
-                    {
-                        // The particle is moving into the inner cylinder
-                        if (t2 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                    if (t2 == 0)
-                    {
-                        // The particle is moving into the inner sphere
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                }
-            }
-        }
+    //  _____        _____
+    // |     |      |     |
+    // |     |      |     |
+    // | x---*----->*-----*----->     material in front of and behind the hole,
+    // |     |      |     |           the first one not passed yet counts
+    // |_____|      |_____|
+    //
+    if (t_hole_enter >= GEOMETRY_PRECISION && t_hole_enter - t_enter >= GEOMETRY_PRECISION) {
+        distance.first = t_enter;
+        distance.second = t_hole_enter;
+    } else if (t_leave - t_hole_leave >= GEOMETRY_PRECISION) {
+        distance.first = t_hole_leave;
+        distance.second = t_leave;
     }
 
     // Make a computer precision controll!
@@ -516,8 +174,7 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
         distance.first = -1;
     if (distance.second < GEOMETRY_PRECISION)
         distance.second = -1;
-    if (distance.first < 0 ||
-        (distance.second > 0 && distance.second < distance.first))
+    if (distance.first < 0)
         std::swap(distance.first, distance.second);
 
     return distance;
-- 
2.43.0


From c7f213c1d38cfc0607b04d8d0e1e6b94af75015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:14 +0000
Subject: [PATCH 59/63] fix: scattering into a sector with a higher energy
 limit was not possible

---
 src/PROPOSAL/PROPOSAL/Propagator.h          |  3 ++-
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/Propagator.h b/src/PROPOSAL/PROPOSAL/Propagator.h
index f684fcf..31a502f 100644
--- a/src/PROPOSAL/PROPOSAL/Propagator.h
+++ b/src/PROPOSAL/PROPOSAL/Propagator.h
@@ -80,7 +80,8 @@ private:
         InvalidStep = 0,
         ReachedInteraction = 1,
         ReachedMaxDistance = 2,
-        ReachedBorder = 3
+        ReachedBorder = 3,
+        ReachedSectorLimit = 4
     };
 
     std::vector<Sector> sector_list;
diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 7bec77a..c66fa32 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -137,6 +137,7 @@ Secondaries Propagator::Propagate(const ParticleState& initial_particle,
             break;
         }
         case ReachedMaxDistance:
+        case ReachedSectorLimit:
             continue_propagation = false;
             break;
         }
@@ -157,7 +158,7 @@ Interaction::Loss Propagator::DoStochasticInteraction(ParticleState& p_cond,
 }
 
 int Propagator::AdvanceParticle(ParticleState &state,
-    const double energy_next_interaction, const double final_distance,
+    const double energy_sampled, const double final_distance,
     std::function<double()> rnd_generator, Sector& current_sector,
     bool min_energy_step, const double min_energy) {
 
@@ -165,6 +166,9 @@ int Propagator::AdvanceParticle(ParticleState &state,
     auto& density = get<DENSITY_DISTR>(current_sector);
     auto& geometry = get<GEOMETRY>(current_sector);
 
+    // energy where the step ends at the latest
+    double energy_next_interaction = energy_sampled;
+    double sector_limit = min_energy;
     double energy = energy_next_interaction; // final energy of proposed step
     double grammage = -1; // grammage of proposed step
     double distance = -1; // geometrical distance of proposed step
@@ -276,6 +280,10 @@ int Propagator::AdvanceParticle(ParticleState &state,
             utility = get<UTILITY>(new_sector);
             density = get<DENSITY_DISTR>(new_sector);
             geometry = get<GEOMETRY>(new_sector);
+            // The new sector might not describe the particle down to the sampled energy
+            auto lower_lim = std::min(utility.collection.displacement_calc->GetLowerLim(), state.energy);
+            energy_next_interaction = std::max(energy_sampled, lower_lim);
+            sector_limit = std::max(min_energy, lower_lim);
             grammage_next_interaction = utility.LengthContinuous(state.energy, energy_next_interaction);
             energy = energy_next_interaction;
             distance = -1;
@@ -313,10 +321,12 @@ int Propagator::AdvanceParticle(ParticleState &state,
     state.position = state.position + distance * mean_direction;
     state.direction = new_direction;
     state.propagated_distance = state.propagated_distance + distance;
-    if (min_energy_step && advancement_type == ReachedInteraction)
+    if (advancement_type == ReachedInteraction && energy_next_interaction > energy_sampled)
+        advancement_type = ReachedSectorLimit;
+    if ((min_energy_step && advancement_type == ReachedInteraction) || advancement_type == ReachedSectorLimit)
         state.energy = energy; // we reached a specific energy, no randomization
     else
-        state.energy = utility.EnergyRandomize(state.energy, energy, rnd_generator, min_energy);
+        state.energy = utility.EnergyRandomize(state.energy, energy, rnd_generator, sector_limit);
 
     return advancement_type;
 }
-- 
2.43.0


From 89cd2225f8af8f29babb83175a9fe0722bcd348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:46 +0000
Subject: [PATCH 60/63] fix: a particle on the end face of a cylinder slid
 along it in steps below its resolution

The distance to an end face was calculated relative to the center of the
cylinder, finer than the position of the particle can follow.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 104f708..8faf2f6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -97,10 +97,11 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
 
     const double INFINITE = std::numeric_limits<double>::infinity();
 
-    // Position relative to the center of the cylinder
+    // Top and bottom surface, position relative to the axis of the cylinder
+    double z_calc_pos = position_.GetZ() + 0.5 * z_;
+    double z_calc_neg = position_.GetZ() - 0.5 * z_;
     double x = pos_vec.GetX() - position_.GetX();
     double y = pos_vec.GetY() - position_.GetY();
-    double z = pos_vec.GetZ() - position_.GetZ();
 
     // Part of the trajectory that is inside an infinitely long barrel
     // (empty if t_enter >= t_leave)
@@ -128,11 +129,11 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     double t_enter, t_leave;
     std::tie(t_enter, t_leave) = barrel(radius_);
     if (dir_vec.GetZ() != 0) {
-        double t_top = (0.5 * z_ - z) / dir_vec.GetZ();
-        double t_bottom = (-0.5 * z_ - z) / dir_vec.GetZ();
+        double t_top = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
+        double t_bottom = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
         t_enter = std::max(t_enter, std::min(t_top, t_bottom));
         t_leave = std::min(t_leave, std::max(t_top, t_bottom));
-    } else if (std::abs(z) >= 0.5 * z_) {
+    } else if (pos_vec.GetZ() <= z_calc_neg || pos_vec.GetZ() >= z_calc_pos) {
         return distance;
     }
     if (t_leave - t_enter < GEOMETRY_PRECISION || t_leave == INFINITE)
-- 
2.43.0


From 5c6b2f7aaf7e692b1a5a1c1e56d35e439fa9c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 61/63] fix: the time of a step in a varying density did not
 belong to its distance

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index c66fa32..d6c196c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -317,7 +317,10 @@ int Propagator::AdvanceParticle(ParticleState &state,
         }
     } while (advancement_type == InvalidStep);
 
-    state.time = state.time + utility.TimeElapsed(state.energy, energy, grammage, density->Evaluate(state.position)); // TODO: should the energy passed here be the randomized energy or not?
+    // The density may vary along the step: with another one than the mean density,
+    // the elapsed time would not belong to the propagated distance
+    auto mean_density = (distance > 0 && grammage > 0) ? grammage / distance : density->Evaluate(state.position);
+    state.time = state.time + utility.TimeElapsed(state.energy, energy, grammage, mean_density); // TODO: should the energy passed here be the randomized energy or not?
     state.position = state.position + distance * mean_direction;
     state.direction = new_direction;
     state.propagated_distance = state.propagated_distance + distance;
-- 
2.43.0


From 6b182a5fc5cab88569d0dc3e6e41707e18c99518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:49 +0000
Subject: [PATCH 62/63] fix: a particle entered a preferred sector of equal
 hierarchy unnoticed

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index d6c196c..fe063ae 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -340,9 +340,17 @@ double Propagator::CalculateDistanceToBorder(const Vector3D& position,
     auto distance_border
         = current_geometry.DistanceToBorder(position, direction).first;
     double tmp_distance;
+    bool defined_before = true;
     for (auto& sector : sector_list) {
         auto& geometry = get<GEOMETRY>(sector);
-        if (geometry->GetHierarchy() > current_geometry.GetHierarchy()) {
+        if (geometry.get() == &current_geometry)
+            defined_before = false;
+        // for equal hierarchies, the sector that has been defined first is
+        // preferred, see GetCurrentSector
+        if (geometry->GetHierarchy() > current_geometry.GetHierarchy()
+            || (defined_before
+                && geometry->GetHierarchy()
+                    == current_geometry.GetHierarchy())) {
             tmp_distance
                 = geometry->DistanceToBorder(position, direction).first;
             if (tmp_distance >= 0)
-- 
2.43.0


From 8e37de642aaaf285f09ee4ddea54d906246081a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:31 +0000
Subject: [PATCH 63/63] fix: photonuclear deflection was NaN when the momentum
 transfer rounds below its minimum

---
 .../stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
index dfcde07..61a67af 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 
 using namespace PROPOSAL;
@@ -16,6 +17,7 @@ stochastic_deflection::PhotoBorogPetrukhin::CalculateStochasticDeflection(
     auto t_1 = std::min(epsilon * epsilon, m_0 * m_0);
     auto t_p = (t_max * t_1) / ((t_max + t_1) * pow(((t_max * (t_min + t_1)) / (t_min * (t_max + t_1))), rnd[0]) - t_max); 
     auto sin2 = (t_p - t_min) / (4 * (e_i * e_f - mass * mass) - 2 * t_min);
+    sin2 = std::max(sin2, 0.); // t_p reaches t_min only up to rounding
     auto theta_muon = 2 * std::asin(std::sqrt(sin2));
 
     return UnitSphericalVector { theta_muon, 2 * PI * rnd[1] };
-- 
2.43.0

