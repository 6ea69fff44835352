From 24333ca153aeb949f23788185cbbe7083bdd1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:33 +0000
Subject: [PATCH 01/74] fix: refuse an empty text where a number is expected

---
 common/StringTools.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/StringTools.cc b/common/StringTools.cc
index 6628312..6cf810f 100644
--- a/common/StringTools.cc
+++ b/common/StringTools.cc
@@ -102,7 +102,7 @@ long strToLong(const std::string& aString) {
   } else {
     val = strtol(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr != str + end || st == end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside long int range");
@@ -158,7 +158,7 @@ unsigned long strToUlong(const std::string& aString) {
   } else {
     val = strtoul(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr != str + end || st == end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString +
@@ -203,7 +203,7 @@ float strToFloat(const std::string& aString) {
   // Clear errno since strtof does not do it.
   errno = 0;
   double val = strtof(str, &endPtr);
-  if (endPtr != str + end)
+  if (endPtr != str + end || end == 0)
     throw std::runtime_error(aString + " is not a floating point value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside float range");
@@ -217,7 +217,7 @@ double strToDouble(const std::string& aString) {
   // Clear errno since strtod does not do it.
   errno = 0;
   double val = strtod(str, &endPtr);
-  if (endPtr != str + end)
+  if (endPtr != str + end || end == 0)
     throw std::runtime_error(aString + " is not a floating point value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString + " is invalid or outside double range");
@@ -243,7 +243,7 @@ int64_t strToInt64(const std::string& aString) {
   } else {
     val = strtoll(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr != str + end || st == end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(aString +
@@ -275,7 +275,7 @@ uint64_t strToUint64(const std::string& aString) {
   } else {
     val = strtoull(str + st, &endPtr, 10);
   }
-  if (endPtr != str + end)
+  if (endPtr != str + end || st == end)
     throw std::runtime_error(aString + " is not an integer value");
   if (errno == ERANGE || errno == EINVAL)
     throw std::runtime_error(
-- 
2.43.0


From 795ac270e9974b922c61b1e2cc4b9209d752b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:33 +0000
Subject: [PATCH 02/74] fix: read unsigned 32-bit settings of 2^31 and above as
 unsigned

---
 common/ParameterValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.h b/common/ParameterValue.h
index 6c37057..97e9f47 100644
--- a/common/ParameterValue.h
+++ b/common/ParameterValue.h
@@ -56,7 +56,7 @@ class ParameterValue {
   int16_t getInt16() const { return strToInt16(itsValue); }
   uint16_t getUint16() const { return strToUint16(itsValue); }
   int32_t getInt32() const { return strToInt32(itsValue); }
-  int32_t getUint32() const { return strToUint32(itsValue); }
+  uint32_t getUint32() const { return strToUint32(itsValue); }
   int64_t getInt64() const { return strToInt64(itsValue); }
   uint64_t getUint64() const { return strToUint64(itsValue); }
   float getFloat() const { return strToFloat(itsValue); }
-- 
2.43.0


From 2666bbd075a3b6a225a174238d0f53e18af3fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:33 +0000
Subject: [PATCH 03/74] fix: let a range that ends at the largest integer
 terminate

---
 common/StringTools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/StringTools.cc b/common/StringTools.cc
index 6cf810f..1bebe44 100644
--- a/common/StringTools.cc
+++ b/common/StringTools.cc
@@ -321,7 +321,7 @@ std::string expandRangeString(const std::string& strng) {
       }
       int lennum = endnum - stnum - 1;
       if (lennum > 0) {
-        int num = strToInt(str.substr(stnum + 1, lennum));
+        long num = strToInt(str.substr(stnum + 1, lennum));
         // Found number, now find possible prefix.
         // We could say that the prefix has to be alphanumeric, but more
         // general is to accept all characters except ([,*; blank and tab.
-- 
2.43.0


From d881c307d8353a7827561af1dccd19a42bb83bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:34 +0000
Subject: [PATCH 04/74] fix: do not overrun the unit buffer when reading a
 duration

---
 common/ParameterValue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.cc b/common/ParameterValue.cc
index 4839575..8d0cfa7 100644
--- a/common/ParameterValue.cc
+++ b/common/ParameterValue.cc
@@ -303,7 +303,7 @@ time_t ParameterValue::StringToTime_t(const std::string& aString) {
   time_t theTime;
   char unit[1024];
   unit[0] = '\0';
-  if (sscanf(aString.c_str(), "%ld%s", &theTime, unit) < 1) {
+  if (sscanf(aString.c_str(), "%ld%1023s", &theTime, unit) < 1) {
     throw ParException(aString + " is not a time value");
   }
   switch (unit[0]) {
-- 
2.43.0


From 2452d9d403163e60a6e808c77ab89e328a4c9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:09 +0000
Subject: [PATCH 05/74] fix: refuse a parameter line without a key

---
 common/ParameterSetImpl.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..971a04d 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -243,13 +243,11 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
     unsigned int st = lskipws(line, 0, line.size());
     if (line[st] != '#') {  // skip if only comment
       unsigned int end = rskipws(line, st, line.size());
-      if (st < end) {             // skip empty line
-        unsigned int nonbl = st;  // Position of last non-blank character
+      if (st < end) {  // skip empty line
         unsigned int stval = st;  // Start of value
         while (st < end) {
           if (line[st] == '"' || line[st] == '\'') {
             st = skipQuoted(line, st);
-            nonbl = st - 1;  // last char of quoted string
           } else if (line[st] == '#') {
             end = rskipws(line, stval, st);  // A comment ends the line
           } else {
@@ -260,15 +258,13 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
                 value.erase();
               }
               // Use ParameterValue to get the key without possible quotes.
-              ParameterValue pvkey(line.substr(stval, nonbl - stval + 1),
-                                   false);
+              ParameterValue pvkey(
+                  line.substr(stval, rskipws(line, stval, st) - stval), false);
               key = pvkey.getString();
               if (key.empty())
                 throw APSException("Empty key given in line " + line);
               key = prefix + key;
               stval = st + 1;
-            } else if (line[st] != ' ' && line[st] != '\t') {
-              nonbl = st;  // Position of last non-blank
             }
             st++;
           }
-- 
2.43.0


From c96cf274f2d6fc4d8048cc5c6ab6b41a824f3ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:09 +0000
Subject: [PATCH 06/74] fix: count a key asked for in another case as used in a
 case-insensitive set

---
 common/ParameterSetImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 971a04d..e824447 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -323,7 +323,8 @@ ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
       throw APSException("Key " + aKey + " unknown");
     }
   } else {
-    itsAskedParms.insert(aKey);
+    // Use the key as defined, because the comparison can be case insensitive.
+    itsAskedParms.insert(iter->first);
   }
 
   return (iter);
-- 
2.43.0


From 5346edbbc965de90c7a5fead6b8c21ea0fdfe1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:06 +0000
Subject: [PATCH 07/74] fix: hold the lock in all queries of a parameter set

---
 common/ParameterSetImpl.cc | 26 +++++++++++++-------------
 common/ParameterSetImpl.h  |  1 +
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index e824447..6992bf2 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -158,21 +158,19 @@ void ParameterSetImpl::adoptBuffer(const std::string& theBuffer,
 //
 void ParameterSetImpl::adoptCollection(const ParameterSetImpl& theCollection,
                                        const std::string& thePrefix) {
+  // Adopting itself without a prefix changes nothing.
+  if (&theCollection == this && thePrefix.empty()) return;
+  // Iterate on a copy. It is made with only the lock of the collection held, so
+  // two sets can safely adopt each other, and a set can adopt itself.
+  KVMap tmp(KeyCompare(theCollection.itsMode));
+  {
+    std::lock_guard<std::mutex> locker(theCollection.itsMutex);
+    tmp = theCollection;
+  }
   // Thread-safety.
   std::lock_guard<std::mutex> locker(itsMutex);
-  // Cannot adopt itself.
-  if (&theCollection != this) {
-    for (const_iterator iter = theCollection.begin();
-         iter != theCollection.end(); ++iter) {
-      replaceUnlocked(thePrefix + iter->first, iter->second);
-    }
-  } else if (!thePrefix.empty()) {
-    // However, adopt itself if a prefix is given.
-    // Iterate on a copy, otherwise an endless loop occurs.
-    KVMap tmp(theCollection);
-    for (const_iterator iter = tmp.begin(); iter != tmp.end(); ++iter) {
-      replaceUnlocked(thePrefix + iter->first, iter->second);
-    }
+  for (const_iterator iter = tmp.begin(); iter != tmp.end(); ++iter) {
+    replaceUnlocked(thePrefix + iter->first, iter->second);
   }
 }
 
@@ -598,6 +596,7 @@ int32_t indexValue(const std::string& label, const char indexMarker[2]) {
 // Searches for a key ending in the given 'shortkey' and returns it full name.
 // e.g: a.b.c.d.param=xxxx --> locateModule(d)-->a.b.c.
 std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
@@ -622,6 +621,7 @@ std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
 // e.g: a.b.c.d.param=xxxx --> fullModuleName(d.param)-->
 std::string ParameterSetImpl::fullModuleName(
     const std::string& shortKey) const {
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
diff --git a/common/ParameterSetImpl.h b/common/ParameterSetImpl.h
index 741b35d..2a0fde4 100644
--- a/common/ParameterSetImpl.h
+++ b/common/ParameterSetImpl.h
@@ -165,6 +165,7 @@ class ParameterSetImpl : public KVMap {
 
   /// Checks if the given Key is defined in the ParameterSetImpl.
   bool isDefined(const std::string& searchKey) const {
+    std::lock_guard<std::mutex> locker(itsMutex);
     return (find(searchKey) != end());
   };
 
-- 
2.43.0


From 520f80fc4ccfd9482c40f16d763bc111b7700a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:13 +0000
Subject: [PATCH 08/74] fix: refuse a per-station value that can not be read

---
 common/ValuePerStationParsing.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/ValuePerStationParsing.h b/common/ValuePerStationParsing.h
index b5765b2..9fba8e7 100644
--- a/common/ValuePerStationParsing.h
+++ b/common/ValuePerStationParsing.h
@@ -92,7 +92,9 @@ void ParseValuePerStation(std::span<ValueType> result,
         stations_value.substr(colon + 1, stations_value.size() - colon));
     std::istringstream value_stream(value_string);
     ValueType value;
-    value_stream >> value;
+    if (!(value_stream >> value))
+      throw std::runtime_error(
+          "Invalid value in station-value list item: '" + stations_value + "'");
     std::string station_pattern(stations_value.substr(0, colon));
     AssignStationValues(result, value, station_pattern, station_names);
   }
-- 
2.43.0


From 4447ba558f1125cb261f61091328ffacad0e7e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 09/74] fix: return the true median of an even number of values

---
 common/Median.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/Median.h b/common/Median.h
index 56ad3e6..dfa93c3 100644
--- a/common/Median.h
+++ b/common/Median.h
@@ -23,8 +23,8 @@ T Median(std::vector<T>& v) {
   if ((v.size() % 2) == 1) {
     return *target;
   } else {
-    auto before = target - 1;
-    std::nth_element(v.begin(), before, v.end());
+    // The elements before the target are not larger than the target.
+    auto before = std::max_element(v.begin(), target);
     return (*target + *before) / static_cast<T>(2);
   }
 }
-- 
2.43.0


From 14714bbeb92a6a56197e81cf4af996d8d2beed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 10/74] fix: do not read packed flags when none are asked for

---
 common/DataConvert.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/DataConvert.cc b/common/DataConvert.cc
index 461873c..515443c 100644
--- a/common/DataConvert.cc
+++ b/common/DataConvert.cc
@@ -109,6 +109,9 @@ unsigned int boolToBit(void* to, const void* from, unsigned int nvalues,
 
 unsigned int bitToBool(void* to, const void* from, unsigned int nvalues,
                        unsigned int startbit) {
+  if (nvalues == 0) {
+    return 0;
+  }
   bool* data = (bool*)to;
   const unsigned char* bits = (const unsigned char*)from + startbit / 8;
   startbit %= 8;
-- 
2.43.0


From 65d98f472a6725ca1f3fb52fcb72582d100d99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 11/74] fix: give the normal-equations solution the layout the
 other solvers use

---
 ddecal/linear_solvers/NormalEquationsSolver.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ddecal/linear_solvers/NormalEquationsSolver.h b/ddecal/linear_solvers/NormalEquationsSolver.h
index c863d53..84a41ae 100644
--- a/ddecal/linear_solvers/NormalEquationsSolver.h
+++ b/ddecal/linear_solvers/NormalEquationsSolver.h
@@ -31,6 +31,9 @@ class NormalEquationsSolver final : public LLSSolver {
    * columnwise (N, NRHS)
    */
   bool Solve(std::complex<float>* a, std::complex<float>* b) override {
+    // Leading dimension of b, both on entry and on exit.
+    const int b_stride = std::max(m_, n_);
+
     // compute a^dagger a
     for (int n = 0; n < n_; ++n) {
       for (int np = n; np < n_; ++np) {  // fill upper triangle only
@@ -44,7 +47,7 @@ class NormalEquationsSolver final : public LLSSolver {
       for (int n = 0; n < n_; ++n) {
         adaggerb_[n + p * n_] = std::complex<float>(0.0, 0.0);
         for (int m = 0; m < m_; ++m) {
-          adaggerb_[n + p * n_] += std::conj(a[m + n * m_]) * b[m + p * m_];
+          adaggerb_[n + p * n_] += std::conj(a[m + n * m_]) * b[m + p * b_stride];
         }
       }
     }
@@ -57,7 +60,9 @@ class NormalEquationsSolver final : public LLSSolver {
     cposv_(&uplo, &n_, &nrhs_, adaggera_.data(), &n_, adaggerb_.data(), &ldb,
            &info);
 
-    std::copy_n(adaggerb_.data(), n_ * nrhs_, b);
+    for (int p = 0; p < nrhs_; ++p) {
+      std::copy_n(adaggerb_.data() + p * n_, n_, b + p * b_stride);
+    }
 
     // Check for full rank
     return info == 0;
-- 
2.43.0


From 501f236d7314ef9285d7f8cf0e32a0ce7a0e6fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:51 +0000
Subject: [PATCH 12/74] fix: do not use the incoming offset when fitting TEC
 and offset

---
 base/PhaseFitter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/PhaseFitter.cc b/base/PhaseFitter.cc
index 6b1b9ef..76205c7 100644
--- a/base/PhaseFitter.cc
+++ b/base/PhaseFitter.cc
@@ -109,6 +109,7 @@ void PhaseFitter::fillDataWithTEC1Model(double alpha) {
 
 void PhaseFitter::FitTEC2ModelParameters(double& alpha, double& beta) const {
   double lowerAlpha = -40000.0e6, upperAlpha = 40000.0e6;
+  beta = 0.0;  // The value on input is not used
   bruteForceSearchTEC2Model(lowerAlpha, upperAlpha, beta);
   alpha = (lowerAlpha + upperAlpha) * 0.5;
   // beta = fitBeta(alpha, beta);
-- 
2.43.0


From 49727c695a394be333aa953c199a5a78d1ed48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:51 +0000
Subject: [PATCH 13/74] fix: find the TEC, offset and delay also when the
 offset is close to pi

---
 ddecal/constraints/TecOffsetDelayFitting.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ddecal/constraints/TecOffsetDelayFitting.cc b/ddecal/constraints/TecOffsetDelayFitting.cc
index b2bc9d0..b38157f 100644
--- a/ddecal/constraints/TecOffsetDelayFitting.cc
+++ b/ddecal/constraints/TecOffsetDelayFitting.cc
@@ -345,10 +345,21 @@ TecOffsetDelayValues TecOffsetDelayGridSearch(
       // The a and c values are used as starting guess by subtracting the
       // corresponding model from the data and wrapping them all to [-pi, pi].
       // The linear fit is then done on the residual to determine coefficient
-      // offsets. The b values are solved for so we don't need to unwrap for b.
+      // offsets. When b is solved for, the circular mean of the residual is used
+      // as starting guess for b, such that the residual does not wrap around.
+      double b = 0.0;
+      if (include_b) {
+        double sum_sin = 0.0;
+        double sum_cos = 0.0;
+        for (size_t i = 0; i != x_data.size(); ++i) {
+          const double r = y_data[i] - UnwrappedModel(x_data[i], a, 0.0, c);
+          sum_sin += std::sin(r) * weights[i];
+          sum_cos += std::cos(r) * weights[i];
+        }
+        b = std::atan2(sum_sin, sum_cos);
+      }
       for (size_t i = 0; i != x_data.size(); ++i)
-        residual_data[i] =
-            Wrap(y_data[i] - UnwrappedModel(x_data[i], a, 0.0, c));
+        residual_data[i] = Wrap(y_data[i] - UnwrappedModel(x_data[i], a, b, c));
 
       std::optional<TecOffsetDelayValues> residual_fit;
       if (method == TecOffsetDelayFittingMethod::LeastSquares) {
@@ -360,7 +371,7 @@ TecOffsetDelayValues TecOffsetDelayGridSearch(
       }
       if (residual_fit) {
         const TecOffsetDelayValues fit = {.a = residual_fit->a + a,
-                                          .b = residual_fit->b,
+                                          .b = residual_fit->b + b,
                                           .c = residual_fit->c + c};
         const double cost = TecOffsetDelayCost(x_data, y_data, weights, fit);
         if (cost < best_cost) {
-- 
2.43.0


From af6f2accd62c020564fe4d63ae4ed751b8d70696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:57 +0000
Subject: [PATCH 14/74] fix: search the full slope range for negative and
 nearly equal grid values

---
 common/PhaseLineFitter.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/PhaseLineFitter.h b/common/PhaseLineFitter.h
index 33d51ef..e47f87c 100644
--- a/common/PhaseLineFitter.h
+++ b/common/PhaseLineFitter.h
@@ -4,6 +4,8 @@
 #ifndef DP3_COMMON_PHASE_LINE_FITTER_H_
 #define DP3_COMMON_PHASE_LINE_FITTER_H_
 
+#include <algorithm>
+#include <cassert>
 #include <cmath>
 #include <limits>
 #include <vector>
@@ -100,7 +102,7 @@ inline SlopeFitRange GetRange(
   }
   const double min_x = data.front().x;
   const double max_x = data.back().x;
-  const double max_abs_x = max_x < 0.0 ? -min_x : max_x;
+  const double max_abs_x = std::max(std::abs(min_x), std::abs(max_x));
 
   // The search must go from 0 wraps to the maximum number of wraps that can
   // still lead to finding the right wrapping.
@@ -109,7 +111,8 @@ inline SlopeFitRange GetRange(
   // lead to a large nr of wraps; e.g. in an extreme case of fitting a slope
   // through two values around 150 MHz separated by 1 Hz it would cause 150e6
   // values to search through.
-  int max_wraps = std::ceil(max_abs_x / min_delta);
+  int max_wraps = std::min<double>(std::ceil(max_abs_x / min_delta),
+                                   std::numeric_limits<int>::max() - 1);
 
   // There is another upper bound to the max nr of wraps: with a low nr of
   // values, there is a fixed, low nr of ways that the values can have been
-- 
2.43.0


From 64544db5bede97f227f37125a4bf3c17a71561c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:57 +0000
Subject: [PATCH 15/74] fix: make the Epanechnikov kernel symmetric, as
 documented

---
 ddecal/constraints/KernelSmoother.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ddecal/constraints/KernelSmoother.h b/ddecal/constraints/KernelSmoother.h
index a76376e..f6dc66a 100644
--- a/ddecal/constraints/KernelSmoother.h
+++ b/ddecal/constraints/KernelSmoother.h
@@ -93,12 +93,11 @@ class KernelSmoother {
         else
           return std::exp(-x * x * NumType(9.0));
       case EpanechnikovKernel:
-        /// 3/4 * (1-x)^2;
-        if (_truncate && (x < NumType(-1.0) || x > NumType(1.0))) {
+        /// 3/4 * (1-x^2);
+        if (x < NumType(-1.0) || x > NumType(1.0)) {
           return 0.0;
         } else {
-          x = NumType(1.0) - x;
-          return (NumType(3.0) / NumType(4.0)) * x * x;
+          return (NumType(3.0) / NumType(4.0)) * (NumType(1.0) - x * x);
         }
     }
   }
-- 
2.43.0


From 27f28afb1496bb2b679f5c5e5e4758209fc1d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:57 +0000
Subject: [PATCH 16/74] fix: count fractional weights when unwrapping a
 weighted phase fit

---
 ddecal/constraints/PieceWisePhaseFitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/PieceWisePhaseFitter.h b/ddecal/constraints/PieceWisePhaseFitter.h
index 3a5a451..4992b00 100644
--- a/ddecal/constraints/PieceWisePhaseFitter.h
+++ b/ddecal/constraints/PieceWisePhaseFitter.h
@@ -299,7 +299,7 @@ class PieceWisePhaseFitter {
    */
   void fitSlope(const double* data, const double* frequencies,
                 const double* weights, size_t n, double& a, double& b) {
-    size_t qCounts[4] = {0, 0, 0, 0};
+    double qCounts[4] = {0.0, 0.0, 0.0, 0.0};
     for (size_t i = 0; i != n; ++i) {
       if (data[i] > M_PI * 1.5)
         qCounts[3] += weights[i];
-- 
2.43.0


From 2319caf2cf72296ab883edf2e175fd7aaed60fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 17/74] fix: do not divide by zero in a phase fit with one
 weighted sample

---
 ddecal/constraints/PieceWisePhaseFitter.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddecal/constraints/PieceWisePhaseFitter.h b/ddecal/constraints/PieceWisePhaseFitter.h
index 4992b00..b3bb277 100644
--- a/ddecal/constraints/PieceWisePhaseFitter.h
+++ b/ddecal/constraints/PieceWisePhaseFitter.h
@@ -330,6 +330,7 @@ class PieceWisePhaseFitter {
 
     double sum_x = 0.0, sum_xSq = 0.0, mean_y = 0.0, ss_xy = 0.0,
            sum_weight = 0.0;
+    size_t n_weighted = 0;
 
     for (size_t i = 0; i != n; ++i) {
       double x = data[i];
@@ -342,6 +343,7 @@ class PieceWisePhaseFitter {
       mean_y += x * weights[i];
       ss_xy += frequencies[i] * x * weights[i];
       sum_weight += weights[i];
+      if (weights[i] != 0.0) ++n_weighted;
     }
     if (sum_weight == 0.0) {
       a = 0.0;
@@ -351,7 +353,8 @@ class PieceWisePhaseFitter {
       double mean_x = sum_x / sum_weight;
       double ss_xx = sum_xSq - mean_x * sum_x;
       ss_xy -= sum_x * mean_y;
-      b = ss_xy / ss_xx;
+      // The slope is undetermined if there is only one sample with weight.
+      b = n_weighted > 1 ? ss_xy / ss_xx : 0.0;
       a = mean_y - b * mean_x;
     }
   }
-- 
2.43.0


From 2334645f2f83ff43583a536f9fd9ab549cb66ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 18/74] fix: initialise the orientation flag in both
 GaussianSource constructors

---
 base/GaussianSource.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/GaussianSource.cc b/base/GaussianSource.cc
index ec76e49..7a0b736 100644
--- a/base/GaussianSource.cc
+++ b/base/GaussianSource.cc
@@ -14,6 +14,7 @@ namespace base {
 GaussianSource::GaussianSource(const Direction &direction)
     : PointSource(direction),
       itsPositionAngle(0.0),
+      itsPositionAngleIsAbsolute(true),
       itsMajorAxis(0.0),
       itsMinorAxis(0.0) {}
 
-- 
2.43.0


From 09831be6a3b08adf20bb4a6d9517fd1257a4633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 19/74] fix: do not keep spectral terms of a previously
 inspected component

---
 base/ComponentInfo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/ComponentInfo.cc b/base/ComponentInfo.cc
index 138fbcb..ed0ce77 100644
--- a/base/ComponentInfo.cc
+++ b/base/ComponentInfo.cc
@@ -38,6 +38,7 @@ void ComponentInfo::update(const PointSource& component) {
         "Cannot handle spectra with more than three components");
   }
   const size_t spec_size = (spec.size() > 3 ? 3 : spec.size());
+  std::fill(spectrum_.begin(), spectrum_.end(), 0.0);
   for (size_t index = 0; index < spec_size; index++) {
     spectrum_[index] = spec[index];
   }
-- 
2.43.0


From 0106c63b1d361be7715fefe1ad50ba24f8ebc97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 20/74] fix: normalise the mean vector when computing the
 declination of a patch

---
 sky_model/Patch.cc    | 2 +-
 sky_model/PatchInfo.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sky_model/Patch.cc b/sky_model/Patch.cc
index ee0fa42..76906a3 100644
--- a/sky_model/Patch.cc
+++ b/sky_model/Patch.cc
@@ -26,7 +26,7 @@ void Patch::ComputeDirection() {
     y /= components_.size();
     z /= components_.size();
 
-    direction_ = base::Direction(std::atan2(y, x), std::asin(z));
+    direction_ = base::Direction(std::atan2(y, x), std::atan2(z, std::hypot(x, y)));
   }
 }
 
diff --git a/sky_model/PatchInfo.h b/sky_model/PatchInfo.h
index 1ca6d8e..2ce9792 100644
--- a/sky_model/PatchInfo.h
+++ b/sky_model/PatchInfo.h
@@ -84,7 +84,10 @@ class PatchSumInfo {
   double getRa() const {
     return std::atan2(itsSumY / itsSumFlux, itsSumX / itsSumFlux);
   }
-  double getDec() const { return std::asin(itsSumZ / itsSumFlux); }
+  double getDec() const {
+    return std::atan2(itsSumZ / itsSumFlux,
+                      std::hypot(itsSumX / itsSumFlux, itsSumY / itsSumFlux));
+  }
 
   /// Get the patchId.
   unsigned int getPatchId() const { return itsPatchId; }
-- 
2.43.0


From 5116ee1c994887c8d1af9597626aec94531caff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 21/74] fix: use the mean vector for the direction of a cluster
 of sources

---
 sky_model/SkyModelFunctions.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/sky_model/SkyModelFunctions.cc b/sky_model/SkyModelFunctions.cc
index a679830..0c127eb 100644
--- a/sky_model/SkyModelFunctions.cc
+++ b/sky_model/SkyModelFunctions.cc
@@ -195,15 +195,11 @@ std::vector<std::shared_ptr<Patch>> clusterProximateSources(
   std::vector<std::shared_ptr<Patch>> clusteredPatchList;
   for (const auto& groups : clusters) {
     std::vector<std::shared_ptr<ModelComponent>> componentsInPatch;
-    double alpha = 0.0;
-    double delta = 0.0;
     for (const auto& component : groups) {
       auto lookupIndices = lookup_table[component];
       const auto& patch = patch_list[lookupIndices.first];
       const std::shared_ptr<ModelComponent>& comp =
           *(patch->begin() + lookupIndices.second);
-      alpha += comp->direction().ra;
-      delta += comp->direction().dec;
       componentsInPatch.emplace_back(comp);
     }
     const std::shared_ptr<Patch>& firstPatch =
@@ -211,8 +207,6 @@ std::vector<std::shared_ptr<Patch>> clusterProximateSources(
     std::shared_ptr<Patch> ppatch = std::make_shared<Patch>(
         firstPatch->Name() + "_" + std::to_string(clusteredPatchList.size()),
         componentsInPatch.begin(), componentsInPatch.end());
-    ppatch->SetDirection(
-        Direction(alpha / groups.size(), delta / groups.size()));
     clusteredPatchList.push_back(std::move(ppatch));
   }
 
-- 
2.43.0


From 518641834d08aaa45c203c3adb677b93310e2d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 22/74] fix: use the default sky model format if the format
 string is empty

---
 sky_model/ReadSkyModel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index c8cab68..2c124b0 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -231,9 +231,9 @@ SdbFormat getFormat(const std::string& format) {
     sdbf.fieldNrs[i] = -1;
   }
   // Use default if the string is empty.
-  if (st >= end - 1) {
+  if (st + 1 >= end) {
     char sep = ',';
-    if (st == end - 1) sep = format[st];
+    if (st + 1 == end) sep = format[st];
     for (unsigned int i = 0; i < NrKnownFields; ++i) {
       sdbf.fieldNrs[i] = i;
       sdbf.sep.push_back(sep);
-- 
2.43.0


From e61b3c2e596f688e04073831b78676154d868c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 23/74] fix: accept quoted position values in a sky model

---
 sky_model/ReadSkyModel.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index 2c124b0..2c68eb8 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -470,8 +470,8 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
               "Colons cannot be used in declination value " + value);
       }
       casacore::Quantity q;
-      if (!casacore::MVAngle::read(q, values[pnr]))
-        throw std::runtime_error("Error in reading position " + values[pnr]);
+      if (!casacore::MVAngle::read(q, value))
+        throw std::runtime_error("Error in reading position " + value);
       deg = q.getValue("deg");
       fnd = true;
     }
@@ -479,13 +479,13 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
     if (hnr >= 0) {
       std::string value = getValue(values, hnr);
       if (!value.empty()) {
-        deg = string2real(values[hnr], 0);
+        deg = string2real(value, 0);
         fnd = true;
       }
     } else if (dnr >= 0) {
       std::string value = getValue(values, dnr);
       if (!value.empty()) {
-        deg = string2real(values[dnr], 0);
+        deg = string2real(value, 0);
         fnd = true;
       }
     }
@@ -493,14 +493,14 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
     if (mnr >= 0) {
       std::string value = getValue(values, mnr);
       if (!value.empty()) {
-        ms = string2real(values[mnr], 0);
+        ms = string2real(value, 0);
         fnd = true;
       }
     }
     if (snr >= 0) {
       std::string value = getValue(values, snr);
       if (!value.empty()) {
-        ms += string2real(values[snr], 0) / 60;
+        ms += string2real(value, 0) / 60;
         fnd = true;
       }
     }
-- 
2.43.0


From ff23de0affb1c4eff513597bf46dde8de5085f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 24/74] fix: keep the sign of -0 degrees in a sky model
 position

---
 sky_model/ReadSkyModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index 2c68eb8..5eca588 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -504,7 +504,7 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
         fnd = true;
       }
     }
-    if (deg < 0) {
+    if (std::signbit(deg)) {
       deg -= ms / 60;
     } else {
       deg += ms / 60;
-- 
2.43.0


From b433d8c038526556edce0655db90e95c1a897654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:03 +0000
Subject: [PATCH 25/74] fix: honour linear spectral terms in the polarized
 fraction from Q and U

---
 sky_model/ReadSkyModel.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index 5eca588..448a45c 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -635,28 +635,34 @@ void fillShapelet(SourceInfo& srcInfo, const std::string& shpI,
 // A spectral index can be used to calculate Stokes I.
 void calcRMParam(double& polfrac, double& polang, double fluxi0, double fluxq,
                  double fluxu, const std::vector<double>& spectralIndices,
-                 double rm, double refFreq, double rmRefWavel) {
+                 bool useLogSI, double rm, double refFreq, double rmRefWavel) {
   // polfrac = sqrt(q^2 + u^2) / i
   // where i = i(0) * spectral_index
   // Compute spectral index for the RM reference wavelength as:
   // (v / v0) ^ (c0 + c1 * log10(v / v0) + c2 * log10(v / v0)^2 + ...)
   // Where v is the RM frequency and v0 is the spectral index reference
   // frequency.
-  double si = 1;
+  // If the terms are not logarithmic, i = i(0) + c0 x + c1 x^2 + ...,
+  // with x = v / v0 - 1.
+  double fluxi = fluxi0;
   if (spectralIndices.size() > 0) {
     if (rmRefWavel <= 0)
       throw std::runtime_error("No RM reference wavelength given");
     double rmFreq = casacore::C::c / rmRefWavel;
     double vv0 = rmFreq / refFreq;
+    const double base = useLogSI ? log10(vv0) : vv0 - 1.0;
     double factor = 1;
     double sum = 0;
     for (unsigned int i = 0; i < spectralIndices.size(); ++i) {
       sum += factor * spectralIndices[i];
-      factor *= log10(vv0);
+      factor *= base;
+    }
+    if (useLogSI) {
+      fluxi *= std::pow(vv0, sum);
+    } else {
+      fluxi += sum * base;
     }
-    si = std::pow(vv0, sum);
   }
-  double fluxi = fluxi0 * si;
   polfrac = sqrt(fluxq * fluxq + fluxu * fluxu) / fluxi;
   // Calculate polang(0) from Q and U given for the reference lambda.
   // polang = atan2(u,q) / 2
@@ -791,8 +797,8 @@ void process(const std::string& line, dp3::sky_model::SkyModel& pdb,
     double pfrac = string2real(polFrac, 0.);
     double pang = string2real(polAng, 0.);
     if (!fluxQ.empty()) {
-      calcRMParam(pfrac, pang, fluxI, fq, fu, spectralIndices, rmval, refFreq,
-                  rmRefWavel);
+      calcRMParam(pfrac, pang, fluxI, fq, fu, spectralIndices, useLogSI, rmval,
+                  refFreq, rmRefWavel);
     }
     add(fieldValues, PolFracNr, pfrac);
     add(fieldValues, PolAngNr, pang);
-- 
2.43.0


From b70f3fbf23f9c878b9450b9c8474f74b4e6610ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:58 +0000
Subject: [PATCH 26/74] fix: recalculate the baseline lengths after setting
 other antennas

---
 base/DPInfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 0163300..3ba9e22 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -266,6 +266,9 @@ void DPInfo::setAntennas(const std::vector<std::string>& antNames,
   antenna_positions_ = antPos;
   antenna1_ = ant1;
   antenna2_ = ant2;
+  // Clear; they'll be recalculated if needed.
+  baseline_lengths_.clear();
+  auto_correlation_indices_.clear();
   // Set which antennae are used.
   setAntUsed();
 }
-- 
2.43.0


From 1f97b55a512bbb289ae294100da009ed213deb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:58 +0000
Subject: [PATCH 27/74] fix: update the total bandwidth when selecting channels

---
 base/DPInfo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 3ba9e22..b560deb 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -399,6 +399,8 @@ void DPInfo::SelectChannels(unsigned int start_channel,
       std::vector<double>(resol_begin, resol_begin + n_channels);
   effective_bandwidth_.front() =
       std::vector<double>(effbw_begin, effbw_begin + n_channels);
+  total_bandwidth_ = std::accumulate(effective_bandwidth_.front().begin(),
+                                     effective_bandwidth_.front().end(), 0.0);
 
   // Add the new start channel to an existing start_channel, so MSUpdater can
   // still update the correct channel(s) in the original input MS.
-- 
2.43.0


From 86d590d3d2823c80278190699ebaa10cc57f65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:27 +0000
Subject: [PATCH 28/74] fix: accept BDA channel lists whose total bandwidths
 differ by rounding only

---
 base/DPInfo.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index b560deb..71f9bdc 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -174,8 +174,11 @@ void DPInfo::setChannels(std::vector<std::vector<double>>&& chan_freqs,
 
   const double total_bw = std::accumulate(effective_bw.front().begin(),
                                           effective_bw.front().end(), 0.0);
+  // The order of the additions differs between baselines: Allow rounding errors.
+  const double tolerance = 1.0e-9 * std::abs(total_bw);
   for (std::vector<double>& eff_bw_bl : effective_bw) {
-    if (std::accumulate(eff_bw_bl.begin(), eff_bw_bl.end(), 0.0) != total_bw) {
+    const double bw = std::accumulate(eff_bw_bl.begin(), eff_bw_bl.end(), 0.0);
+    if (std::abs(bw - total_bw) > tolerance) {
       throw std::runtime_error("Total BW is not equal for all baselines");
     }
   }
-- 
2.43.0


From 90b977abcbc40a75614494c0e2dfe302b9109e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:13 +0000
Subject: [PATCH 29/74] fix: average the UVW of baseline-dependent averaged
 rows without unflagged data

---
 steps/BDAAverager.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 0427218..52f6658 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -337,7 +337,6 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
   const std::size_t n_channels = getInfoOut().chanFreqs(baseline_nr).size();
 
   // Divide data values by their total weight.
-  float total_weight = 0.0f;
   for (std::size_t index = 0; index < bb.weights.size(); ++index) {
     const float weight = bb.weights[index];
     if (weight > 0) {
@@ -345,15 +344,13 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
         data_name_vector.second[index] /= weight;
       }
     }
-    total_weight += weight;
   }
 
-  if (total_weight > 0) {
-    const double factor = 1.0 / bb.times_added;
-    bb.uvw[0] *= factor;
-    bb.uvw[1] *= factor;
-    bb.uvw[2] *= factor;
-  }
+  // The UVW coordinates are summed without weights, for all time slots.
+  const double factor = 1.0 / bb.times_added;
+  bb.uvw[0] *= factor;
+  bb.uvw[1] *= factor;
+  bb.uvw[2] *= factor;
 
   if (bda_buffer_->GetRemainingCapacity() < n_channels * getInfoOut().ncorr()) {
     getNextStep()->process(std::move(bda_buffer_));
-- 
2.43.0


From 45ac47896ca1b77b98850ee28441aa198ba20a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:13 +0000
Subject: [PATCH 30/74] fix: never create more channels than the input has when
 minchannels exceeds them

---
 steps/BDAAverager.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 52f6658..cbcdd34 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -155,11 +155,8 @@ void BdaAverager::updateInfo(const DPInfo& _info) {
       nchan = _info.nchan();
       if (bl_threshold_channel_ > 0.0) {
         nchan = std::ceil(lengths[i] / bl_threshold_channel_ * double(nchan));
-        if (nchan > _info.nchan()) {
-          nchan = _info.nchan();
-        } else if (nchan < min_channels_) {
-          nchan = min_channels_;
-        }
+        nchan = std::max(nchan, min_channels_);
+        nchan = std::min<std::size_t>(nchan, _info.nchan());
       }
     } else {
       factor_time = baseline_factors_[i];
-- 
2.43.0


From ba7473fb053751a50983d27e8a8bd2454545be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:18 +0000
Subject: [PATCH 31/74] fix: map every expanded channel to the averaged channel
 that holds it

---
 steps/BdaExpander.cc | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/steps/BdaExpander.cc b/steps/BdaExpander.cc
index 278eb29..df9f729 100644
--- a/steps/BdaExpander.cc
+++ b/steps/BdaExpander.cc
@@ -60,25 +60,21 @@ void BdaExpander::updateInfo(const DPInfo& info_in) {
   next_time_slot_to_process_ = 0;
   channels_mapping_.resize(info_in.nbaselines());
   for (unsigned int k = 0; k < info_in.nbaselines(); k++) {
-    int next_chan = 0;
     // Store the mapping between averaged and non averaged channels in the
-    // variable channels_mapping_
-    for (size_t i = 0; i < info_in.chanWidths(k).size(); i++) {
-      const int n_averaged_channels =
-          std::round(info_in.chanWidths(k)[i] / single_channel_bw);
-      if (n_averaged_channels == 1) {
-        // non-bda-averaged channel
-        channels_mapping_[k].push_back(next_chan);
-
-      } else {
-        // bda-averaged channels
-        for (int p = 0; p < n_averaged_channels; p++) {
-          // The same bda-averaged channel will be copied over multiple channels
-          // in the regular output
-          channels_mapping_[k].push_back(next_chan);
-        }
+    // variable channels_mapping_. Each non averaged channel uses the averaged
+    // channel that contains its center. (When all baselines are averaged, the
+    // averaged channels need not consist of complete output channels.)
+    const std::vector<double>& widths_in = info_in.chanWidths(k);
+    size_t averaged_chan = 0;
+    double upper_edge = widths_in.front();
+    channels_mapping_[k].clear();
+    for (unsigned int chan = 0; chan < info_in.nchan(); ++chan) {
+      const double center = (chan + 0.5) * single_channel_bw;
+      while (center > upper_edge && averaged_chan + 1 < widths_in.size()) {
+        ++averaged_chan;
+        upper_edge += widths_in[averaged_chan];
       }
-      next_chan++;
+      channels_mapping_[k].push_back(averaged_chan);
     }
   }
 
-- 
2.43.0


From 8abf84342f14903b4db9e88178a7a42dd38fbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:56 +0000
Subject: [PATCH 32/74] fix: use the frame given in the UVWFlagger phasecenter

---
 steps/UVWFlagger.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 8c9702f..1e99970 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -405,6 +405,7 @@ void UVWFlagger::handleCenter() {
         throw std::runtime_error(str +
                                  " is an invalid direction type in UVWFlagger"
                                  " in UVWFlagger phasecenter");
+      type = tp;
     }
     phaseCenter = casacore::MDirection(q0, q1, type);
   }
-- 
2.43.0


From 6defe794d03a429464dd7501cec4097374c607ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 33/74] fix: accept UVWFlagger uvm ranges that start below zero

---
 steps/UVWFlagger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 1e99970..dc3c430 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -11,6 +11,8 @@
 #include "common/ParameterSet.h"
 #include "common/StreamUtil.h"
 
+#include <cmath>
+
 #include <casacore/casa/Arrays/Array.h>
 #include <casacore/casa/Arrays/ArrayMath.h>
 #include <casacore/casa/Quanta/Quantum.h>
@@ -364,7 +366,8 @@ std::vector<double> UVWFlagger::fillUVW(const common::ParameterSet& parset,
     for (std::vector<double>::iterator iter = vals.begin(); iter != vals.end();
          ++iter) {
       if (*iter != -1e15) {
-        *iter = *iter * *iter;
+        // Keep the sign, so that a range from -x still includes a distance of 0.
+        *iter = *iter * std::abs(*iter);
       }
     }
   }
-- 
2.43.0


From 2e7ba2ab69edc072d241e4deea26c8c1bc9766a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:13 +0000
Subject: [PATCH 34/74] fix: match nothing when a PreFlagger channel selection
 is empty

---
 steps/PreFlagger.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/steps/PreFlagger.cc b/steps/PreFlagger.cc
index bf7b759..4a97fd5 100644
--- a/steps/PreFlagger.cc
+++ b/steps/PreFlagger.cc
@@ -318,9 +318,7 @@ void PreFlagger::PSet::updateInfo(const DPInfo& info) {
   // Determine the channels to be flagged.
   if (!(itsStrChan.empty() && itsStrFreq.empty())) {
     fillChannels(info);
-    if (!itsChannels.empty()) {
-      itsFlagOnTimeOnly = false;
-    }
+    itsFlagOnTimeOnly = false;
   }
   // Do the same for the child steps.
   for (unsigned int i = 0; i < itsPSets.size(); ++i) {
@@ -509,7 +507,7 @@ xt::xtensor<uint8_t, 2>* PreFlagger::PSet::process(
     flagPtr += n_channels;
   }
   // Flag on channel if necessary.
-  if (!itsChannels.empty()) {
+  if (!(itsStrChan.empty() && itsStrFreq.empty())) {
     flagChannels();
   }
   // Flag on amplitude, phase or real/imaginary if necessary.
-- 
2.43.0


From c3c83f27ffdf078ac0236ab25c8e9e9de2741e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:50 +0000
Subject: [PATCH 35/74] fix: use the correlations given to the MADFlagger

---
 steps/MadFlagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 5504ed3..3ff6ba0 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -137,8 +137,8 @@ void MadFlagger::updateInfo(const DPInfo& infoIn) {
   } else {
     for (const unsigned int ip : itsFlagCorr) {
       // Only take valid corrrelations.
-      if (itsFlagCorr[ip] < ncorr) {
-        flagCorr.push_back(itsFlagCorr[ip]);
+      if (ip < ncorr) {
+        flagCorr.push_back(ip);
       }
     }
     // If no valid left, use first one.
-- 
2.43.0


From 66a59e57ee7f9e99a09b175e52ae19112dc715ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:40 +0000
Subject: [PATCH 36/74] fix: do not index an empty lane write buffer

---
 common/buffered_lane.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/buffered_lane.h b/common/buffered_lane.h
index ea2cd4b..3876c9a 100644
--- a/common/buffered_lane.h
+++ b/common/buffered_lane.h
@@ -61,7 +61,8 @@ class lane_write_buffer {
   }
 
   void flush() {
-    _lane->move_write(&_buffer[0], _buffer.size());
+    if (_buffer.empty()) return;
+    _lane->move_write(_buffer.data(), _buffer.size());
     _buffer.clear();
   }
 
-- 
2.43.0


From fdfd46a4d93a11cb7508a6d4bd5be25946c18cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:40 +0000
Subject: [PATCH 37/74] fix: pass the end of the stream on from SetBeam

---
 steps/SetBeam.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/SetBeam.h b/steps/SetBeam.h
index 0171aa5..8c6e829 100644
--- a/steps/SetBeam.h
+++ b/steps/SetBeam.h
@@ -33,7 +33,7 @@ class SetBeam final : public Step {
 
   bool process(std::unique_ptr<base::DPBuffer> buffer) override;
 
-  void finish() override{};
+  void finish() override { getNextStep()->finish(); }
 
   void updateInfo(const base::DPInfo& info) override;
 
-- 
2.43.0


From b81075b05cbf0712610ec812a53b09dbe4dea780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 38/74] fix: refuse data without 4 correlations in NullStokes

---
 steps/NullStokes.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steps/NullStokes.cc b/steps/NullStokes.cc
index 26f02d6..5849b13 100644
--- a/steps/NullStokes.cc
+++ b/steps/NullStokes.cc
@@ -11,6 +11,7 @@
 #include "common/ParameterSet.h"
 
 #include <iostream>
+#include <stdexcept>
 
 using dp3::base::DPBuffer;
 using dp3::base::DPInfo;
@@ -98,6 +99,9 @@ bool NullStokes::process(std::unique_ptr<DPBuffer> buffer) {
 
 void NullStokes::updateInfo(const base::DPInfo& info_in) {
   Step::updateInfo(info_in);
+  if (info_in.ncorr() != 4) {
+    throw std::runtime_error("NullStokes requires data with 4 correlations");
+  }
 }
 
 void NullStokes::finish() {
-- 
2.43.0


From 18835e62228ee2c3d286e70d5b4155feb28c86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 39/74] fix: refuse an unknown buffer in Combine for regular
 data

---
 steps/Combine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steps/Combine.cc b/steps/Combine.cc
index 36501b5..4ead1dc 100644
--- a/steps/Combine.cc
+++ b/steps/Combine.cc
@@ -56,6 +56,10 @@ void Combine::showTimings(std::ostream& os, double duration) const {
 bool Combine::process(std::unique_ptr<DPBuffer> buffer) {
   timer_.start();
 
+  if (!buffer->HasData(buffer_name_))
+    throw std::runtime_error("Combine step: Could not find buffer with name " +
+                             buffer_name_);
+
   const xt::xtensor<std::complex<float>, 3>& other_data =
       buffer->GetData(buffer_name_);
 
-- 
2.43.0


From 74ae5b4caaa18e45d1a4a8f1431ca876deccde8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 40/74] fix: set the start and end time of upsampled data

---
 steps/Upsample.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 80e236c..d56ab2e 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -51,9 +51,14 @@ Upsample::~Upsample() {}
 
 void Upsample::updateInfo(const DPInfo& info_in) {
   Step::updateInfo(info_in);
-  GetWritableInfoOut().setTimeIntervalAndSteps(
-      getInfoOut().timeInterval() / time_step_,
-      getInfoOut().ntime() * time_step_);
+  const double time_interval = info_in.timeInterval() / time_step_;
+  // The first and last upsampled slots are centered before and after the
+  // centers of the first and last input slots.
+  const double shift = 0.5 * (info_in.timeInterval() - time_interval);
+  GetWritableInfoOut().setTimes(info_in.firstTime() - shift,
+                                info_in.lastTime() + shift, time_interval);
+  GetWritableInfoOut().setTimeIntervalAndSteps(time_interval,
+                                               info_in.ntime() * time_step_);
   GetWritableInfoOut().setMetaChanged();
 
   if (update_uvw_) {
-- 
2.43.0


From 3f58f9338e8dd3d152b40cbd044ec1542c8b0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:12 +0000
Subject: [PATCH 41/74] fix: finish Upsample without any time slot

---
 steps/Upsample.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index d56ab2e..9b25dbf 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -164,8 +164,8 @@ bool Upsample::process(std::unique_ptr<base::DPBuffer> buffer) {
 }
 
 void Upsample::finish() {
-  // Flush prev_buffers_
-  for (unsigned int i = first_to_flush_; i < time_step_; ++i) {
+  // Flush prev_buffers_, which is empty if there was no input at all
+  for (size_t i = first_to_flush_; i < prev_buffers_.size(); ++i) {
     getNextStep()->process(std::move(prev_buffers_[i]));
   }
 
-- 
2.43.0


From b20b61b1ce1ad26b31df598a257f68d501e0755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 42/74] fix: take MADFlagger medians of the unflagged window
 samples only

---
 steps/MadFlagger.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 3ff6ba0..a1c3c37 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -401,6 +401,7 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
                                 common::NSTimer& moveTimer,
                                 common::NSTimer& medianTimer) {
   moveTimer.start();
+  tempBuffer.resize(itsFreqWindow * timeEntries.size());
   // Collect all non-flagged data points for given baseline, channel,
   // and correlation in the window around the channel.
   unsigned int np = 0;
@@ -442,6 +443,8 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
       }
     }
   }
+  // Only the collected data points count for the medians.
+  tempBuffer.resize(np);
   moveTimer.stop();
   // If only flagged data, don't do anything.
   if (np == 0) {
-- 
2.43.0


From 91cbb78cdd3ce1042374dd12bbd0ceb59ba93bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 43/74] fix: flag with the right slots when fewer come than the
 MADFlagger window

---
 steps/MadFlagger.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index a1c3c37..7e43935 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -198,42 +198,47 @@ bool MadFlagger::process(std::unique_ptr<base::DPBuffer> buffer) {
 
 void MadFlagger::finish() {
   itsTimer.start();
-  // Adjust window size if there are fewer time entries.
+  // Adjust window sizes if there are fewer time entries. The buffers stay where
+  // they are.
+  const unsigned int nBuffers = itsBuffers.size();
   if (itsNTimes < itsTimeWindow) {
-    itsTimeWindow = 1 + ((itsNTimes - 1) / 2) * 2;  // make sure it is odd
+    // make sure it is odd
+    itsTimeWindow = itsNTimes == 0 ? 1 : 1 + ((itsNTimes - 1) / 2) * 2;
+    for (unsigned int& timeWindow : itsTimeWindowArr) {
+      timeWindow = std::min(timeWindow, itsTimeWindow);
+    }
   }
   unsigned int halfWindow = itsTimeWindow / 2;
   std::vector<unsigned int> timeEntries(itsTimeWindow);
   // Process possible leading entries.
   // This can happen if the window was larger than number of times.
-  while (itsNTimesDone < itsNTimes - halfWindow) {
+  while (itsNTimesDone + halfWindow < itsNTimes) {
     // Process in the same way as in process.
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
       timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
-      timeEntries[inx++] = (itsNTimesDone + i) % itsTimeWindow;
+          std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
+      timeEntries[inx++] = (itsNTimesDone + i) % nBuffers;
     }
-    flag(itsNTimesDone, timeEntries);
+    flag(itsNTimesDone % nBuffers, timeEntries);
     itsNTimesDone++;
   }
-  assert(itsNTimes - itsNTimesDone == halfWindow);
   // Process the remaining time entries.
   while (itsNTimesDone < itsNTimes) {
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
       timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
+          std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
       // Time entries might need to be mirrored at the end.
       unsigned int ri = itsNTimesDone + i;
       if (ri >= itsNTimes) {
         ri = 2 * (itsNTimes - 1) - ri;
       }
-      timeEntries[inx++] = ri % itsTimeWindow;
+      timeEntries[inx++] = ri % nBuffers;
     }
-    flag(itsNTimesDone % itsTimeWindow, timeEntries);
+    flag(itsNTimesDone % nBuffers, timeEntries);
     itsNTimesDone++;
   }
   itsTimer.stop();
-- 
2.43.0


From 62875577c8530736505e6748699b7a6eb78f19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:10 +0000
Subject: [PATCH 44/74] fix: scale BDA data with the frequencies of each
 baseline

---
 steps/ScaleData.cc | 67 ++++++++++++++++++++++++++++++++--------------
 steps/ScaleData.h  |  2 ++
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/steps/ScaleData.cc b/steps/ScaleData.cc
index 7d0a0b2..394fbaf 100644
--- a/steps/ScaleData.cc
+++ b/steps/ScaleData.cc
@@ -23,10 +23,6 @@
 #include <casacore/casa/BasicMath/Functors.h>
 #include <casacore/casa/Utilities/Regex.h>
 
-#include <xtensor/containers/xadapt.hpp>
-
-#include <xtensor/views/xview.hpp>
-
 #include <cassert>
 #include <iostream>
 
@@ -41,6 +37,18 @@ using casacore::Regex;
 namespace dp3 {
 namespace steps {
 
+namespace {
+/// Evaluate the polynomial in the frequency (in MHz).
+double EvaluateScale(const std::vector<double>& coeff, double freq) {
+  double fact = coeff[coeff.size() - 1];
+  for (unsigned int k = coeff.size() - 1; k > 0; --k) {
+    fact *= freq / 1e6;  // use freq in MHz
+    fact += coeff[k - 1];
+  }
+  return fact;
+}
+}  // namespace
+
 ScaleData::ScaleData(const common::ParameterSet& parset,
                      const std::string& prefix, MsType inputType)
     : itsName(prefix),
@@ -89,6 +97,7 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   const std::vector<double>& freqs = infoIn.chanFreqs();
   // Convert the coefficients to scale factors per freq per station regex.
   std::vector<std::vector<float>> scaleVec(itsStationExp.size());
+  std::vector<std::vector<double>> coeffVec(itsStationExp.size());
   std::vector<Regex> stationRegex(itsStationExp.size());
   for (unsigned int i = 0; i < scaleVec.size(); ++i) {
     // Convert the station string to a proper Regex object.
@@ -102,13 +111,9 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
     scales.reserve(freqs.size());
     // Evaluate the polynomial for each frequency giving the scale factors.
     for (unsigned int j = 0; j < freqs.size(); ++j) {
-      double fact = coeff[coeff.size() - 1];
-      for (unsigned int k = coeff.size() - 1; k > 0; --k) {
-        fact *= freqs[j] / 1e6;  // use freq in MHz
-        fact += coeff[k - 1];
-      }
-      scales.push_back(fact);
+      scales.push_back(EvaluateScale(coeff, freqs[j]));
     }
+    coeffVec[i] = std::move(coeff);
   }
   // If needed, find the nr of tiles/dipoles used for each station and
   // fill the size scale factors.
@@ -125,10 +130,12 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   // The first matching regex is used.
   // The nr of tiles in use gives an extra scale factor.
   itsStationFactors.reserve(nant);
+  std::vector<unsigned int> stationIndex(nant);
   for (unsigned int i = 0; i < nant; ++i) {
     for (unsigned int j = 0; j < stationRegex.size(); ++j) {
       if (casacore::String(infoIn.antennaNames()[i]).matches(stationRegex[j])) {
         itsStationFactors.push_back(scaleVec[j]);
+        stationIndex[i] = j;
         // If needed, scale with the nr of dipoles/tiles actually used.
         // Do that if explicitly told so or if default coeffs are used.
         if (itsScaleSize ||
@@ -136,6 +143,8 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
           for (unsigned int k = 0; k < itsStationFactors[i].size(); ++k) {
             itsStationFactors[i][k] *= extraFactors[i];
           }
+        } else {
+          extraFactors[i] = 1.0;
         }
         break;
       }
@@ -143,6 +152,24 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   }
   // Now calculate the factors per baseline,freq,pol.
   unsigned int nb = infoIn.nbaselines();
+  if (itsInputType == MsType::kBda) {
+    // The frequencies differ per baseline.
+    itsBdaFactors.resize(nb);
+    for (unsigned int i = 0; i < nb; ++i) {
+      const unsigned int ant1 = infoIn.getAnt1()[i];
+      const unsigned int ant2 = infoIn.getAnt2()[i];
+      const std::vector<double>& coeff1 = coeffVec[stationIndex[ant1]];
+      const std::vector<double>& coeff2 = coeffVec[stationIndex[ant2]];
+      itsBdaFactors[i].clear();
+      for (double freq :
+           infoIn.hasBDAChannels() ? infoIn.chanFreqs(i) : freqs) {
+        const float f1 = float(EvaluateScale(coeff1, freq)) * extraFactors[ant1];
+        const float f2 = float(EvaluateScale(coeff2, freq)) * extraFactors[ant2];
+        itsBdaFactors[i].push_back(sqrt(f1 * f2));
+      }
+    }
+    return;
+  }
   unsigned int nf = freqs.size();
   unsigned int nc = infoIn.ncorr();
   itsFactors.resize({nb, nf, nc});
@@ -195,17 +222,17 @@ bool ScaleData::process(std::unique_ptr<base::DPBuffer> buf) {
 
 bool ScaleData::process(std::unique_ptr<BdaBuffer> bda_buffer) {
   itsTimer.start();
-  std::vector<BdaBuffer::Row> rows = bda_buffer->GetRows();
+  const std::vector<BdaBuffer::Row>& rows = bda_buffer->GetRows();
   for (std::size_t row_nr = 0; row_nr < rows.size(); ++row_nr) {
-    auto factors =
-        xt::view(itsFactors, rows[row_nr].baseline_nr, xt::all(), xt::all());
-    [[maybe_unused]] const std::size_t n_elements =
-        rows[row_nr].n_correlations * rows[row_nr].n_channels;
-    assert(factors.size() == n_elements);
-
-    auto data = xt::adapt(bda_buffer->GetData(row_nr),
-                          std::array{factors.shape()[0], factors.shape()[1]});
-    data *= factors;
+    const BdaBuffer::Row& row = rows[row_nr];
+    const std::vector<float>& factors = itsBdaFactors[row.baseline_nr];
+    assert(factors.size() == row.n_channels);
+    std::complex<float>* data = bda_buffer->GetData(row_nr);
+    for (std::size_t channel = 0; channel < row.n_channels; ++channel) {
+      for (std::size_t corr = 0; corr < row.n_correlations; ++corr) {
+        *data++ *= factors[channel];
+      }
+    }
   }
 
   itsTimer.stop();
diff --git a/steps/ScaleData.h b/steps/ScaleData.h
index 652ddb5..40a5260 100644
--- a/steps/ScaleData.h
+++ b/steps/ScaleData.h
@@ -93,6 +93,8 @@ class ScaleData : public Step {
   std::vector<std::vector<float>>
       itsStationFactors;             ///< scale factor per station,freq
   xt::xtensor<float, 3> itsFactors;  ///< scale factor per baseline,freq,pol
+  std::vector<std::vector<float>>
+      itsBdaFactors;  ///< scale factor per baseline,freq for BDA data
   common::NSTimer itsTimer;
 };
 
-- 
2.43.0


From a80dae0b20ee7992e1d29a37705d272c01b5880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:42 +0000
Subject: [PATCH 45/74] fix: MadFlagger requires the flags that it extends

---
 steps/MadFlagger.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/steps/MadFlagger.h b/steps/MadFlagger.h
index adb0aed..e93b8a2 100644
--- a/steps/MadFlagger.h
+++ b/steps/MadFlagger.h
@@ -65,7 +65,10 @@ class MadFlagger : public Step {
 
   ~MadFlagger() override;
 
-  common::Fields getRequiredFields() const override { return kDataField; }
+  common::Fields getRequiredFields() const override {
+    // The flags are extended, so the existing ones are needed.
+    return kDataField | kFlagsField;
+  }
 
   common::Fields getProvidedFields() const override { return kFlagsField; }
 
-- 
2.43.0


From af13f557cf4abdb428b380c3ddb4cdd30df3af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 46/74] fix: give extra data columns the direction of the phase
 centre

---
 steps/MsReader.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index a006e4e..e583141 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -684,9 +684,6 @@ void MsReader::InitializeColumns(const bool allow_missing_data,
     if (!tdesc.isColumn(columnName)) {
       missing_columns += columnName + ", ";
     }
-    // Make sure that the extra data columns are available in DPInfo.
-    GetWritableInfoOut().GetDirections()[columnName] =
-        getInfoOut().phaseCenterDirection();
   }
   if (!missing_columns.empty()) {
     missing_columns.erase(missing_columns.size() - 2);
@@ -833,6 +830,12 @@ void MsReader::ReadArrayInformation() {
   GetWritableInfoOut().setArrayInformation(array_position, phase_center,
                                            delay_center, tile_beam_direction);
 
+  // Make sure that the extra data columns are available in DPInfo.
+  for (const std::string& column_name : extra_data_column_names_) {
+    GetWritableInfoOut().GetDirections()[column_name] =
+        getInfoOut().phaseCenterDirection();
+  }
+
   uvw_calculator_ = std::make_unique<base::UVWCalculator>(
       phase_center, array_position, antenna_positions);
 }
-- 
2.43.0


From fd1d81fe2982a675f222d80bb76365e25d07c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 47/74] fix: read the last time slot if its time lies within
 the tolerance

---
 steps/MsReader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index e583141..8f786ce 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -228,7 +228,8 @@ bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
     // Stop if at the end, i.e. the above loop completed without hitting an end
     // condition at all, or if there is no data at all.
     if ((next_time_ > getInfoOut().lastTime() &&
-         !casacore::near(next_time_, getInfoOut().lastTime())) ||
+         !casacore::nearAbs(next_time_, getInfoOut().lastTime(),
+                            time_tolerance_)) ||
         next_time_ == 0.0) {
       return false;
     }
-- 
2.43.0


From 37f2f4f93ff1b3c8607a6a8b71ac63aaeae06f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 48/74] fix: include the time slot at endtime despite rounding

---
 steps/MsReader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index 8f786ce..aab3f31 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -525,8 +525,13 @@ void MsReader::ParseTimeSelection(const common::ParameterSet& parset,
           " is before the first timestep in the measurement set");
     }
     // Round specified last time to a multiple of 'interval'.
-    last_time =
-        first_time + std::floor((last_time - first_time) / interval) * interval;
+    double n_intervals = std::floor((last_time - first_time) / interval);
+    // Handle rounding errors: If last_time is close to the next time slot,
+    // use that time slot.
+    if (casacore::near(last_time, first_time + (n_intervals + 1) * interval)) {
+      ++n_intervals;
+    }
+    last_time = first_time + n_intervals * interval;
   } else if (nTimes > 0) {
     last_time = first_time + (nTimes - 1) * interval;
   }
-- 
2.43.0


From d263a4d5be5af63708a193ec9319bcba3d095d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:00 +0000
Subject: [PATCH 49/74] fix: do not read past the row numbers when filtering
 added baselines

---
 steps/Filter.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steps/Filter.cc b/steps/Filter.cc
index 304e14a..13eefd6 100644
--- a/steps/Filter.cc
+++ b/steps/Filter.cc
@@ -166,8 +166,13 @@ bool Filter::process(std::unique_ptr<DPBuffer> buffer) {
     // Filtering on baseline and/or channel; copy all data for selected
     // baselines and channels to make them contiguous. UVW needs to be filtered
     // as well as it is dependent on baselines.
+    // There may be fewer row numbers than baselines, if an earlier step added
+    // baselines that do not exist in the MS.
+    const bool has_row_numbers =
+        !buffer->GetRowNumbers().empty() &&
+        buffer->GetRowNumbers().size() == data.shape(0);
     casacore::Vector<common::rownr_t> rowNrs;
-    if (!buffer->GetRowNumbers().empty()) {
+    if (has_row_numbers) {
       rowNrs.resize(getInfoOut().nbaselines());
     }
     // Copy the data of the selected baselines and channels.
@@ -184,7 +189,7 @@ bool Filter::process(std::unique_ptr<DPBuffer> buffer) {
     int ndto =
         filter_buffer->GetData().shape(2) * filter_buffer->GetData().shape(1);
     for (std::size_t i = 0; i < itsSelBL.size(); ++i) {
-      if (!buffer->GetRowNumbers().empty()) {
+      if (has_row_numbers) {
         rowNrs[i] = buffer->GetRowNumbers()[itsSelBL[i]];
       }
       std::copy_n(frData + itsSelBL[i] * ndfr, ndto, toData);
-- 
2.43.0


From e5df88ed997f45b5b28f592ff366dfadc16f4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:30 +0000
Subject: [PATCH 50/74] fix: do not write weights that were not read when
 updating an MS

When the weights come from the WEIGHT column, MSUpdater::updateInfo added the
weights to the fields to write, after the fields to read were determined.
---
 steps/MSUpdater.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/steps/MSUpdater.cc b/steps/MSUpdater.cc
index 25a4ab2..ab93c91 100644
--- a/steps/MSUpdater.cc
+++ b/steps/MSUpdater.cc
@@ -282,7 +282,6 @@ Specify a name in the parset for "msout".)");
   if (itsWeightColName.empty()) {
     if (infoIn.weightColumnName() == "WEIGHT") {
       itsWeightColName = "WEIGHT_SPECTRUM";
-      SetFieldsToWrite(GetFieldsToWrite() | kWeightsField);
     } else {
       itsWeightColName = infoIn.weightColumnName();
     }
-- 
2.43.0


From 931b492ae7bbaef8439d8c4c289b561044725ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:30 +0000
Subject: [PATCH 51/74] fix: let steps after a writer use the channels of the
 new MS

---
 base/DPInfo.h     | 7 +++++++
 steps/MSWriter.cc | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/base/DPInfo.h b/base/DPInfo.h
index bd36f0a..a3f3723 100644
--- a/base/DPInfo.h
+++ b/base/DPInfo.h
@@ -112,6 +112,13 @@ class DPInfo {
   /// @param n_channels Number of channels to select.
   void SelectChannels(unsigned int start_channel, unsigned int n_channels);
 
+  /// Forget which channels of the input MS were selected. To be used when the
+  /// current channels have been written as all channels of a new MS.
+  void ResetChannelSelection() {
+    start_channel_ = 0;
+    original_n_channels_ = n_channels_;
+  }
+
   /// Select a subset of the baselines.
   /// @param baselines A list with the indices of the baselines that must
   ///                  remain. All other baselines are removed.
diff --git a/steps/MSWriter.cc b/steps/MSWriter.cc
index d9ed47b..927dac0 100644
--- a/steps/MSWriter.cc
+++ b/steps/MSWriter.cc
@@ -259,6 +259,8 @@ void MSWriter::updateInfo(const DPInfo& info_in) {
   if (tile_n_chan_ <= 0 || tile_n_chan_ > info_in.nchan()) {
     tile_n_chan_ = info_in.nchan();
   }
+  // Later steps may update the new MS, which only has the current channels.
+  GetWritableInfoOut().ResetChannelSelection();
   StartNewMs();
 }
 
-- 
2.43.0


From a6b84a5cc3dee97ed0bbd6deaca4859e1cac2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:35 +0000
Subject: [PATCH 52/74] fix: transfer to the selected baselines, not to their
 row number differences

The row numbers are not consecutive if the reader selects baselines, and there
are none for a missing time slot.
---
 steps/FlagTransfer.cc | 13 +++++++------
 steps/Transfer.cc     | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/steps/FlagTransfer.cc b/steps/FlagTransfer.cc
index b7ab603..3533848 100644
--- a/steps/FlagTransfer.cc
+++ b/steps/FlagTransfer.cc
@@ -6,6 +6,8 @@
 
 #include "FlagTransfer.h"
 
+#include <numeric>
+
 #include <xtensor/views/xview.hpp>
 
 #include <casacore/tables/Tables/TableRecord.h>
@@ -127,17 +129,16 @@ bool FlagTransfer::process(std::unique_ptr<DPBuffer> buffer) {
   common::Fields filter_fields = filter_step_->getRequiredFields();
   std::unique_ptr<DPBuffer> substep_buffer =
       std::make_unique<DPBuffer>(*buffer, filter_fields);
+  // Let the filter select baseline indices instead of row numbers.
+  casacore::Vector<common::rownr_t> baseline_indices(getInfoOut().nbaselines());
+  std::iota(baseline_indices.begin(), baseline_indices.end(), 0);
+  substep_buffer->SetRowNumbers(baseline_indices);
   filter_step_->process(std::move(substep_buffer));
   std::unique_ptr<DPBuffer> result_buffer = result_step_->take();
 
-  std::vector<common::rownr_t> filtered_row_numbers =
+  const std::vector<common::rownr_t> filtered_row_numbers =
       result_buffer->GetRowNumbers().tovector();
 
-  const common::rownr_t first_row_number = buffer->GetRowNumbers()[0];
-  for (auto& row_number : filtered_row_numbers) {
-    row_number -= first_row_number;
-  }
-
   if (filtered_row_numbers.size() != flags_.shape()[0]) {
     throw std::runtime_error(
         "FlagTransfer requires that the source and target MS have an equal "
diff --git a/steps/Transfer.cc b/steps/Transfer.cc
index 9a3cb87..b8c4670 100644
--- a/steps/Transfer.cc
+++ b/steps/Transfer.cc
@@ -5,6 +5,8 @@
 
 #include "Transfer.h"
 
+#include <numeric>
+
 #include <xtensor/views/xview.hpp>
 
 #include <casacore/tables/Tables/TableRecord.h>
@@ -196,17 +198,16 @@ bool Transfer::process(std::unique_ptr<DPBuffer> buffer) {
   common::Fields filter_fields = filter_step_->getRequiredFields();
   std::unique_ptr<DPBuffer> substep_buffer =
       std::make_unique<DPBuffer>(*buffer, filter_fields);
+  // Let the filter select baseline indices instead of row numbers.
+  casacore::Vector<common::rownr_t> baseline_indices(getInfoOut().nbaselines());
+  std::iota(baseline_indices.begin(), baseline_indices.end(), 0);
+  substep_buffer->SetRowNumbers(baseline_indices);
   filter_step_->process(std::move(substep_buffer));
   std::unique_ptr<DPBuffer> result_buffer = result_step_->take();
 
-  std::vector<common::rownr_t> filtered_row_numbers =
+  const std::vector<common::rownr_t> filtered_row_numbers =
       result_buffer->GetRowNumbers().tovector();
 
-  const common::rownr_t first_row_number = buffer->GetRowNumbers()[0];
-  for (auto& row_number : filtered_row_numbers) {
-    row_number -= first_row_number;
-  }
-
   if (filtered_row_numbers.size() != data_.shape()[0]) {
     throw std::runtime_error(
         "Transfer requires that the source and target MS have an equal "
-- 
2.43.0


From 0f2d38031143eff40bddb30ba3bc146635fd6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:35 +0000
Subject: [PATCH 53/74] fix: do not read past the last frequency when
 transferring

---
 steps/FlagTransfer.cc | 7 ++-----
 steps/Transfer.cc     | 4 ++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/steps/FlagTransfer.cc b/steps/FlagTransfer.cc
index 3533848..5db00f4 100644
--- a/steps/FlagTransfer.cc
+++ b/steps/FlagTransfer.cc
@@ -173,11 +173,8 @@ bool FlagTransfer::process(std::unique_ptr<DPBuffer> buffer) {
          ++channel_block) {
       const double source_channel_edge =
           source_channel_upper_edges_[channel_block];
-      while (target_frequencies[target_channel] < source_channel_edge) {
-        if (target_channel >= getInfoOut().nchan()) {
-          break;
-        }
-
+      while (target_channel < getInfoOut().nchan() &&
+             target_frequencies[target_channel] < source_channel_edge) {
         for (std::size_t source_row = 0; source_row < n_source_baselines;
              ++source_row) {
           common::rownr_t target_row = filtered_row_numbers[source_row];
diff --git a/steps/Transfer.cc b/steps/Transfer.cc
index b8c4670..41d8e5d 100644
--- a/steps/Transfer.cc
+++ b/steps/Transfer.cc
@@ -147,8 +147,8 @@ void Transfer::TransferSingleTimeSlot(
          ++channel_block) {
       const double source_channel_edge =
           source_channel_upper_edges_[channel_block];
-      while (target_frequencies[target_channel] < source_channel_edge &&
-             target_channel < n_target_channels) {
+      while (target_channel < n_target_channels &&
+             target_frequencies[target_channel] < source_channel_edge) {
         for (std::size_t source_row = 0; source_row < n_source_baselines;
              ++source_row) {
           const common::rownr_t target_row = target_row_numbers[source_row];
-- 
2.43.0


From 228d45c7535e3fda2e4a290269bf135631b84b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:35 +0000
Subject: [PATCH 54/74] fix: initialise the output buffer of Transfer

Baselines that are not selected had undefined values.
---
 steps/Transfer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/Transfer.cc b/steps/Transfer.cc
index 41d8e5d..8344ff0 100644
--- a/steps/Transfer.cc
+++ b/steps/Transfer.cc
@@ -219,6 +219,7 @@ bool Transfer::process(std::unique_ptr<DPBuffer> buffer) {
 
   if (!output_buffer_name_.empty()) {
     buffer->AddData(output_buffer_name_);
+    buffer->GetData(output_buffer_name_).fill(std::complex<float>(0, 0));
   }
 
   // Fill data if DPBuffer is empty
-- 
2.43.0


From 97d35c19ae5f6e617a50572685ad29f26e142d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:35 +0000
Subject: [PATCH 55/74] fix: read a model column also if time slots are missing

---
 steps/MsColumnReader.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/steps/MsColumnReader.cc b/steps/MsColumnReader.cc
index d7a902f..927c50f 100644
--- a/steps/MsColumnReader.cc
+++ b/steps/MsColumnReader.cc
@@ -32,9 +32,13 @@ bool MsColumnReader::process(std::unique_ptr<DPBuffer> buffer) {
   casacore::Cube<casacore::Complex> data(shape, buffer->GetData().data(),
                                          casacore::SHARE);
 
-  assert(buffer->GetRowNumbers().size() == buffer->GetData().shape(0));
-
-  model_column_.getColumnCells(buffer->GetRowNumbers(), data);
+  if (buffer->GetRowNumbers().empty()) {
+    // The time slot is missing in the measurement set.
+    buffer->GetData().fill(std::complex<float>(0, 0));
+  } else {
+    assert(buffer->GetRowNumbers().size() == buffer->GetData().shape(0));
+    model_column_.getColumnCells(buffer->GetRowNumbers(), data);
+  }
 
   getNextStep()->process(std::move(buffer));
 
-- 
2.43.0


From 16b6bf624330401fd3c456d0b5e7b3b7dd93fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 56/74] fix: BdaAverager keeps the spectral window of the input

---
 steps/BDAAverager.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index cbcdd34..36ed99c 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -205,7 +205,9 @@ void BdaAverager::updateInfo(const DPInfo& _info) {
   bda_pool_size_ = _info.ncorr() * bda_channel_sum;
 
   GetWritableInfoOut().update(std::move(baseline_factors));
-  GetWritableInfoOut().setChannels(std::move(freqs), std::move(widths));
+  GetWritableInfoOut().setChannels(
+      std::move(freqs), std::move(widths), std::vector<std::vector<double>>(),
+      std::vector<std::vector<double>>(), 0, getInfoOut().spectralWindow());
 }
 
 bool BdaAverager::process(std::unique_ptr<base::DPBuffer> buffer) {
-- 
2.43.0


From 8c9185d8cd4f3da787d076ee8aeec2030fd566bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 57/74] fix: MSBDAWriter takes the band name and frequency
 frame from the input MS

---
 steps/MSBDAWriter.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/steps/MSBDAWriter.cc b/steps/MSBDAWriter.cc
index 51586c8..37dc58e 100644
--- a/steps/MSBDAWriter.cc
+++ b/steps/MSBDAWriter.cc
@@ -386,7 +386,7 @@ void MSBDAWriter::OverwriteSubTables(const Int bda_set_id) {
   using MS_SPW = casacore::MSSpectralWindow;
 
   std::string name;
-  int measFreqRef;
+  int measFreqRef = 0;
 
   Table outDD(out_name_ + '/' + base::DP3MS::kDataDescTable, Table::Update);
   Table outSPW(out_name_ + '/' + base::DP3MS::kSpectralWindowTable,
@@ -397,14 +397,22 @@ void MSBDAWriter::OverwriteSubTables(const Int bda_set_id) {
         "nrow in SPECTRAL_WINDOW table is not the same as nrow in "
         "DATA_DESCRIPTION table");
 
-  // Remove all rows before and after the selected band.
-  // Do it from the end, otherwise row numbers change.
-  for (int i = int(outSPW.nrow()) - 1; i >= 0; --i) {
-    if (i == getInfoOut().spectralWindow()) {
+  // The SPECTRAL_WINDOW table is not copied, so get the properties of the
+  // selected band from the input MS.
+  if (!getInfoOut().msName().empty()) {
+    const Table inSPW(getInfoOut().msName() + '/' +
+                      base::DP3MS::kSpectralWindowTable);
+    const int band = getInfoOut().spectralWindow();
+    if (band >= 0 && band < int(inSPW.nrow())) {
       measFreqRef =
-          outSPW.col(MS_SPW::columnName(MS_SPW::MEAS_FREQ_REF)).getInt(i);
-      name = outSPW.col(MS_SPW::columnName(MS_SPW::NAME)).getString(i);
+          inSPW.col(MS_SPW::columnName(MS_SPW::MEAS_FREQ_REF)).getInt(band);
+      name = inSPW.col(MS_SPW::columnName(MS_SPW::NAME)).getString(band);
     }
+  }
+
+  // Remove all rows.
+  // Do it from the end, otherwise row numbers change.
+  for (int i = int(outSPW.nrow()) - 1; i >= 0; --i) {
     outSPW.removeRow(i);
     outDD.removeRow(i);
   }
-- 
2.43.0


From 4068c6efcb5daba08bebddf33b7e6d353a609652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 58/74] fix: ToString(CalType) gives the name that
 StringToCalType accepts for Faraday rotation

---
 base/CalType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/CalType.cc b/base/CalType.cc
index 46694f9..0cc5a24 100644
--- a/base/CalType.cc
+++ b/base/CalType.cc
@@ -78,7 +78,7 @@ std::string ToString(CalType caltype) {
     case CalType::kRotationAndDiagonal:
       return "rotation+diagonal";
     case CalType::kFaradayRotation:
-      return "faraday";
+      return "faradayrotation";
     case CalType::kLeakage:
       return "leakage";
     case CalType::kLeakageAmplitude:
-- 
2.43.0


From 1b7450dff887496baea545b4363efac954cb3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 59/74] fix: replace undefined diagonal and full-Jones
 solutions by the average amplitude of the same element

---
 ddecal/gain_solvers/SolverBase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/SolverBase.cc b/ddecal/gain_solvers/SolverBase.cc
index 093754c..9166e67 100644
--- a/ddecal/gain_solvers/SolverBase.cc
+++ b/ddecal/gain_solvers/SolverBase.cc
@@ -351,7 +351,7 @@ void SolverBase::MakeSolutionsFinite2Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 2) {
       if (IsFinite(*iter) && IsFinite(*(iter + 1))) {
-        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
@@ -382,7 +382,7 @@ void SolverBase::MakeSolutionsFinite4Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 4) {
       if (aocommon::Matrix2x2::IsFinite(&*iter)) {
-        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
-- 
2.43.0


From f7151580016bdbb4914583f992210d145e523eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 60/74] fix: HybridSolver counts the iterations of its stages
 once

---
 ddecal/gain_solvers/HybridSolver.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ddecal/gain_solvers/HybridSolver.cc b/ddecal/gain_solvers/HybridSolver.cc
index d9ecd54..df8cbf7 100644
--- a/ddecal/gain_solvers/HybridSolver.cc
+++ b/ddecal/gain_solvers/HybridSolver.cc
@@ -48,15 +48,14 @@ bool HybridSolver::RunSolver(SolverBase& solver, size_t& available_iterations,
     solver.SetMaxIterations(available_iterations);
   aocommon::Logger::Debug << "Starting next hybrid solver stage.\n";
   SolveResult nextResult = solver.Solve(solve_data, solutions, time);
-  result.iterations += nextResult.iterations;
+  const bool is_converged = nextResult.iterations <= solver.GetMaxIterations();
+  // If not converged, the solver has taken the maximum nr of iterations.
+  const size_t n_iterations =
+      is_converged ? nextResult.iterations : solver.GetMaxIterations();
+  result.iterations += n_iterations;
   result.constraint_iterations += nextResult.constraint_iterations;
   result.results = std::move(nextResult.results);
-  const bool is_converged = nextResult.iterations <= solver.GetMaxIterations();
-  if (is_converged)
-    available_iterations -= result.iterations;
-  else  // If not converged, the solver has taken the maximum nr of
-        // iterations.
-    available_iterations -= solver.GetMaxIterations();
+  available_iterations -= n_iterations;
   return is_converged;
 }
 
-- 
2.43.0


From 22f9ace6d9716ceac061755998decffd75fc9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:30 +0000
Subject: [PATCH 61/74] fix: keep the layout of sub-solutions in solution
 intervals with few time slots

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc  |  2 +-
 ddecal/gain_solvers/DiagonalLowRankSolver.cc  |  2 +-
 .../gain_solvers/IterativeDiagonalSolver.cc   |  2 +-
 .../gain_solvers/IterativeFullJonesSolver.cc  |  2 +-
 ddecal/gain_solvers/IterativeScalarSolver.cc  |  2 +-
 ddecal/gain_solvers/SolveData.cc              | 24 ++++---------------
 ddecal/gain_solvers/SolveData.h               | 19 +++++++++++----
 7 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index 82b083e..56e0ace 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -297,7 +297,7 @@ void DiagonalAntennaSolver::PerformIteration(
                                          direction, NSubSolutions(), solutions,
                                          NSubThreads());
 
-    const uint32_t solution_index0 = ch_block_data.SolutionIndex(direction, 0);
+    const uint32_t solution_index0 = ch_block_data.FirstSolutionIndex(direction);
     for (uint32_t direction_solution = 0;
          direction_solution != n_direction_solutions; ++direction_solution) {
       SolveDirectionSolution(ch_block, ch_block_data, residual_data, direction,
diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 41a8421..9fcde96 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -229,7 +229,7 @@ void DiagonalLowRankSolver::PerformIteration(
                                          NSubSolutions(), solutions,
                                          NSubThreads());
 
-    const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+    const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
     for (uint32_t direction_solution = 0;
          direction_solution != n_direction_solutions; ++direction_solution) {
       SolveDirectionSolution(ch_block, cb_data, v_residual, direction,
diff --git a/ddecal/gain_solvers/IterativeDiagonalSolver.cc b/ddecal/gain_solvers/IterativeDiagonalSolver.cc
index 89d5d82..9397af8 100644
--- a/ddecal/gain_solvers/IterativeDiagonalSolver.cc
+++ b/ddecal/gain_solvers/IterativeDiagonalSolver.cc
@@ -144,7 +144,7 @@ void IterativeDiagonalSolver<VisMatrix>::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/IterativeFullJonesSolver.cc b/ddecal/gain_solvers/IterativeFullJonesSolver.cc
index bab9eeb..e5db3fa 100644
--- a/ddecal/gain_solvers/IterativeFullJonesSolver.cc
+++ b/ddecal/gain_solvers/IterativeFullJonesSolver.cc
@@ -118,7 +118,7 @@ void IterativeFullJonesSolver::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/IterativeScalarSolver.cc b/ddecal/gain_solvers/IterativeScalarSolver.cc
index 8fe5d25..fef3884 100644
--- a/ddecal/gain_solvers/IterativeScalarSolver.cc
+++ b/ddecal/gain_solvers/IterativeScalarSolver.cc
@@ -132,7 +132,7 @@ void IterativeScalarSolver<VisMatrix>::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/SolveData.cc b/ddecal/gain_solvers/SolveData.cc
index 57e0c61..e91858d 100644
--- a/ddecal/gain_solvers/SolveData.cc
+++ b/ddecal/gain_solvers/SolveData.cc
@@ -55,22 +55,6 @@ std::vector<size_t> SolutionStartIndices(
   return solution_start_indices;
 }
 
-/**
- * Makes sure that none of the directions use more than @c n_times
- * solutions, and converts size_t to uint32_t.
- */
-std::vector<uint32_t> LimitNSolutionsPerDirection(
-    const std::vector<size_t>& n_solutions_per_direction, size_t n_times) {
-  std::vector<uint32_t> n_solutions;
-  const size_t n_directions = n_solutions_per_direction.size();
-  n_solutions.reserve(n_directions);
-  for (size_t direction = 0; direction != n_directions; ++direction) {
-    n_solutions.emplace_back(
-        std::min(n_solutions_per_direction[direction], n_times));
-  }
-  return n_solutions;
-}
-
 }  // namespace
 
 template <typename MatrixType>
@@ -101,8 +85,8 @@ SolveData<MatrixType>::SolveData(
 
   // Initialize n_solutions_ of the first channel block as template
   // for the other channel blocks
-  channel_blocks_.front().n_solutions_ =
-      LimitNSolutionsPerDirection(n_solutions_per_direction, n_times);
+  channel_blocks_.front().n_solutions_.assign(n_solutions_per_direction.begin(),
+                                              n_solutions_per_direction.end());
 
   // Count nr of visibilities per channel block and allocate memory.
   for (size_t channel_block_index = 0; channel_block_index != n_channel_blocks;
@@ -212,8 +196,8 @@ SolveData<MatrixType>::SolveData(
   }
 
   // Allocate
-  channel_blocks_.front().n_solutions_ = LimitNSolutionsPerDirection(
-      n_solutions_per_direction, buffer.GetIntervalRows().size());
+  channel_blocks_.front().n_solutions_.assign(n_solutions_per_direction.begin(),
+                                              n_solutions_per_direction.end());
   const size_t n_directions = n_solutions_per_direction.size();
   for (size_t cb = 0; cb != n_channel_blocks; ++cb) {
     channel_blocks_[cb].Resize(counts[cb], n_directions);
diff --git a/ddecal/gain_solvers/SolveData.h b/ddecal/gain_solvers/SolveData.h
index 9f89731..c4e6ed1 100644
--- a/ddecal/gain_solvers/SolveData.h
+++ b/ddecal/gain_solvers/SolveData.h
@@ -72,11 +72,10 @@ class SolveData {
     /**
      * Absolute solution index for a direction and visibility combination.
      * When using direction-dependent intervals, a single direction might
-     * have multiple solutions. The solution index is absolute, meaning that
+       * have multiple solutions. The solution index is absolute, meaning that
      * direction zero starts counting at zero and indices of subsequent
-     * directions start after the previous direction. For every direction, the
-     * first solution index is also the lowest value, i.e. SolutionIndex(D, 0)
-     * <= SolutionIndex(D, i) for any i,D.
+     * directions start after the previous direction, i.e.
+     * FirstSolutionIndex(D) <= SolutionIndex(D, i) for any i,D.
      */
     uint32_t SolutionIndex(size_t direction_index,
                            size_t visibility_index) const {
@@ -101,6 +100,15 @@ class SolveData {
       return n_solutions_[direction_index];
     }
 
+    /**
+     * @return The absolute index of the first solution of the given direction.
+     */
+    uint32_t FirstSolutionIndex(size_t direction_index) const {
+      return std::accumulate(n_solutions_.begin(),
+                             n_solutions_.begin() + direction_index,
+                             uint32_t(0));
+    }
+
     /**
      * @return Total number of solutions. This is the sum of the solutions
      * over all directions.
@@ -143,7 +151,8 @@ class SolveData {
    * solutions for this direction. The timesteps in the buffer are split evenly
    * over the solutions. This allows direction-dependent solution intervals. If
    * n_solutions_per_direction[i] is larger than the number of available
-   * timesteps, it is truncated.
+   * timesteps, some solutions have no visibilities. The layout of the solutions
+   * does not depend on the number of timesteps.
    * @param antennas1 For each baseline, the index of the first antenna.
    * @param antennas2 For each baseline, the index of the second antenna.
    */
-- 
2.43.0


From b3b56cc14bc879a4c25dde5bcf46b0418f6bec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 62/74] fix: FaradayConstraint: one weight per polarization of
 the diagonal

---
 ddecal/constraints/FaradayConstraint.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index e5510dd..1c33559 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -88,6 +88,7 @@ void FaradayConstraint::SetSubSolutionWeights(
   sub_solution_weights_ = sub_solution_weights;
   for (ConstraintResult& result : results_) result.weights.clear();
   ConstraintResult& rm_result = results_.front();
+  const size_t n_polarizations = GetNPolarizations(diagonal_solution_type_);
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
     for (const std::vector<double>& weights : sub_solution_weights) {
       const double* antenna_weights = &weights[antenna * NChannelBlocks()];
@@ -95,8 +96,12 @@ void FaradayConstraint::SetSubSolutionWeights(
       for (size_t channel = 0; channel != NChannelBlocks(); ++channel) {
         weight_sum += antenna_weights[channel];
         for (size_t result_index = 1; result_index < results_.size();
-             ++result_index)
-          results_[result_index].weights.emplace_back(antenna_weights[channel]);
+             ++result_index) {
+          for (size_t p = 0; p != n_polarizations; ++p) {
+            results_[result_index].weights.emplace_back(
+                antenna_weights[channel]);
+          }
+        }
       }
       rm_result.weights.emplace_back(weight_sum);
     }
-- 
2.43.0


From 1d0313b769e0deb4f5ae5a79f60c1f2e41c1e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 63/74] fix: FaradayConstraint: rebuild the solution as
 diagonal times rotation

---
 ddecal/constraints/FaradayConstraint.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index 1c33559..e48c52b 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -182,9 +182,10 @@ void FaradayConstraint::PerformFit(SolutionSpan& solutions, size_t sub_solution,
       StoreDiagonal(&results_[1], diagonal, channel, antenna, sub_solution,
                     NChannelBlocks(), NSubSolutions(), diagonal_solution_type_);
     RotationConstraint::SetRotation(data, angle);
+    // The diagonal was derived from D = diagonal x R, so it scales the rows.
     data[0] *= diagonal[0];
-    data[1] *= diagonal[1];
-    data[2] *= diagonal[0];
+    data[1] *= diagonal[0];
+    data[2] *= diagonal[1];
     data[3] *= diagonal[1];
   }
 }
-- 
2.43.0


From 05222c17e30dfaabd2d98c42328b0c5b2d1a5b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 64/74] fix: RotationConstraint: order the weights like the
 results

---
 ddecal/constraints/RotationConstraint.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/RotationConstraint.cc b/ddecal/constraints/RotationConstraint.cc
index 0d3e50e..db32e64 100644
--- a/ddecal/constraints/RotationConstraint.cc
+++ b/ddecal/constraints/RotationConstraint.cc
@@ -26,8 +26,13 @@ void RotationConstraint::Initialize(
 void RotationConstraint::SetWeights(const std::vector<double>& weights) {
   ConstraintResult& result = results_.front();
   result.weights.clear();
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    result.weights.insert(result.weights.end(), weights.begin(), weights.end());
+  // The result is ordered as antenna, sub solution, channel block.
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const auto begin = weights.begin() + antenna * NChannelBlocks();
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      result.weights.insert(result.weights.end(), begin,
+                            begin + NChannelBlocks());
+    }
   }
 }
 
-- 
2.43.0


From 7fd136d3545a7da86c82323a3506bfe9afc1ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 65/74] fix: RotationAndDiagonalConstraint: limit the second
 diagonal by its own mean

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index ccf4b21..5b56108 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -307,7 +307,7 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
         if (a_mean > 0.0 && Limit(diagonal[0], a_mean, maxratio)) {
           diverged = true;
         }
-        if (b_mean > 0.0 && Limit(diagonal[1], a_mean, maxratio)) {
+        if (b_mean > 0.0 && Limit(diagonal[1], b_mean, maxratio)) {
           diverged = true;
         }
 
-- 
2.43.0


From 6149c0a144f0e441010e5e9ba8f96cb1aa3c200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 66/74] fix: RotationAndDiagonalConstraint: order the weights
 like the results

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 5b56108..6c993ee 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -179,10 +179,15 @@ void RotationAndDiagonalConstraint::SetWeights(
     const std::vector<double>& weights) {
   assert(weights.size() == NAntennas() * NChannelBlocks());
   // weights is n_antennas * n_channel_blocks, so it needs to be broadcasted
-  // over n_sub_solutions.
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    std::copy_n(weights.data(), weights.size(),
-                &results_[0].weights[NAntennas() * NChannelBlocks() * i]);
+  // over n_sub_solutions. The result is ordered as antenna, sub solution,
+  // channel block.
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      std::copy_n(
+          &weights[antenna * NChannelBlocks()], NChannelBlocks(),
+          &results_[0]
+               .weights[(antenna * NSubSolutions() + i) * NChannelBlocks()]);
+    }
   }
 
   // Duplicate weights for one or two polarizations and broadcast these over the
-- 
2.43.0


From 19d1f8251abd53955f210ebc1d8e6f11e269d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 67/74] fix: RotationAndDiagonalConstraint: flag the sub
 solution that diverged

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 13 ++++++++-----
 ddecal/constraints/RotationAndDiagonalConstraint.h  |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 6c993ee..8f8abf3 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -238,10 +238,13 @@ void RotationAndDiagonalConstraint::FitRotationAndDiagonal(
 
 template <size_t PolCount>
 void RotationAndDiagonalConstraint::SetChannelWeights(
-    std::vector<double>& values, size_t channel, double new_value) const {
+    std::vector<double>& values, size_t sub_solution, size_t channel,
+    double new_value) const {
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const size_t index =
+        (antenna * NSubSolutions() + sub_solution) * NChannelBlocks() + channel;
     for (size_t p = 0; p != PolCount; ++p) {
-      values[(antenna * NChannelBlocks() + channel) * PolCount + p] = new_value;
+      values[index * PolCount + p] = new_value;
     }
   }
 }
@@ -346,12 +349,12 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // weights of all antennas to a negative value for flagging later if
       // desired
       if (diverged) {
-        SetChannelWeights<1>(results_[0].weights, ch, -1.0);
+        SetChannelWeights<1>(results_[0].weights, sub_solution, ch, -1.0);
         for (size_t i = 1; i != results_.size(); ++i) {
           if (GetNPolarizations(diagonal_solution_type_) == 1)
-            SetChannelWeights<1>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<1>(results_[i].weights, sub_solution, ch, -1.0);
           else
-            SetChannelWeights<2>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<2>(results_[i].weights, sub_solution, ch, -1.0);
         }
       }
     }
diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.h b/ddecal/constraints/RotationAndDiagonalConstraint.h
index d42b49c..8a29824 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.h
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.h
@@ -37,8 +37,8 @@ class RotationAndDiagonalConstraint final : public Constraint {
       std::array<std::complex<double>, 2>& diagonal) const;
 
   template <size_t PolCount>
-  void SetChannelWeights(std::vector<double>& values, size_t channel,
-                         double new_value) const;
+  void SetChannelWeights(std::vector<double>& values, size_t sub_solution,
+                         size_t channel, double new_value) const;
 
   std::vector<ConstraintResult> results_;
   bool do_rotation_reference_;
-- 
2.43.0


From c4a3dbb97725c8849645c306b4c1112f6a69fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 68/74] fix: Simulator: apply time smearing also without
 frequency smearing

---
 base/Simulator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/Simulator.cc b/base/Simulator.cc
index 52f2ae6..0342e4d 100644
--- a/base/Simulator.cc
+++ b/base/Simulator.cc
@@ -255,7 +255,7 @@ void Simulator::visit(const PointSource& component) {
           ++y_q;
         }  // Channels.
 
-        if (itsCorrectFreqSmearing) {
+        if (itsCorrectTimeSmearing || itsCorrectFreqSmearing) {
 #pragma GCC ivdep
           for (size_t ch = 0; ch < itsNChannel; ++ch) {
             *buffer++ += dcomplex(smear_terms[ch] * temp_prod_real_I[ch],
-- 
2.43.0


From 8e64c83c6e676395b4d6237edb1346b2b273eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 69/74] fix: Grid::toDomains: size the y bounds by the y axis

---
 parmdb/Grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index b79a7ed..2b7e43d 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -240,7 +240,7 @@ void Grid::toDomains(std::vector<Box>& domains) const {
   unsigned int nry = ny();
   // Prefetch the lower and upper values for both axes.
   std::vector<double> sx(nrx), ex(nrx);
-  std::vector<double> sy(nrx), ey(nrx);
+  std::vector<double> sy(nry), ey(nry);
   for (unsigned int i = 0; i < nrx; ++i) {
     sx[i] = xaxis.lower(i);
     ex[i] = xaxis.upper(i);
-- 
2.43.0


From c90a6b17a0976de9ce6f6175ad788e89037a9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 70/74] fix: ParmValueSet::addValues: keep the errors in line
 with the values

---
 parmdb/ParmValue.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parmdb/ParmValue.cc b/parmdb/ParmValue.cc
index dc16b40..f8252a0 100644
--- a/parmdb/ParmValue.cc
+++ b/parmdb/ParmValue.cc
@@ -337,7 +337,17 @@ void ParmValueSet::addValues(const Grid& solveGrid) {
         newValues(IPosition(2, ix, iy)) = newValues(IPosition(2, ix, ey1 - 1));
       }
     }
-    value.setScalars(newGrid, newValues);
+    if (value.hasErrors()) {
+      // Keep the existing errors; the errors of the new values are unknown.
+      Array<double> newErrors(newValues.shape());
+      newErrors = 0;
+      newErrors(IPosition(2, sx1, sy1), IPosition(2, ex1 - 1, ey1 - 1)) =
+          value.getErrors();
+      value.setScalars(newGrid, newValues);
+      value.setErrors(newErrors);
+    } else {
+      value.setScalars(newGrid, newValues);
+    }
     itsDomainGrid = Grid(vector<Box>(1, newGrid.getBoundingBox()));
   }
 }
-- 
2.43.0


From 842b440a1fb9ea05c8b396febda1f7806dfbf798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 71/74] fix: Parm::setCoeff: do not use errors that do not
 exist

---
 parmdb/Parm.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parmdb/Parm.cc b/parmdb/Parm.cc
index ddd5704..5dd2596 100644
--- a/parmdb/Parm.cc
+++ b/parmdb/Parm.cc
@@ -117,7 +117,7 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
     err = 0;
     pv.setErrors(err);
   }
-  Array<double>& errors(pv.getErrors());
+  Array<double>* errors = newErrors ? &pv.getErrors() : nullptr;
   assert(values.contiguousStorage());
   if (pvset.getType() != ParmValue::Scalar) {
     if (!useMask || mask.size() == 0) {
@@ -125,8 +125,8 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
       assert(nvalues == values.size());
       copy(newValues, newValues + nvalues, values.cbegin());
       if (newErrors) {
-        assert(nvalues == errors.size());
-        copy(newErrors, newErrors + nvalues, errors.cbegin());
+        assert(nvalues == errors->size());
+        copy(newErrors, newErrors + nvalues, errors->cbegin());
       }
     } else {
       // Only copy values where mask is true.
@@ -134,7 +134,7 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
       double* valp = values.data();
       double* errp = nullptr;
       if (newErrors) {
-        errp = errors.data();
+        errp = errors->data();
       }
       const bool* maskp = mask.data();
       unsigned int inx = 0;
@@ -156,7 +156,7 @@ void Parm::setCoeff(const Grid::Location& where, const double* newValues,
                                      itsSolveGrid, pv.getGrid());
     values.data()[cellId] = newValues[0];
     if (newErrors) {
-      errors.data()[cellId] = newErrors[0];
+      errors->data()[cellId] = newErrors[0];
     }
 
     cell0changed = (cellId == 0);
-- 
2.43.0


From a5f8987ce1ba4a86c491a12251bc84372de14eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 72/74] fix: ParmFacadeLocal::getValues: accept a domain as
 center and width

---
 parmdb/ParmFacadeLocal.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parmdb/ParmFacadeLocal.cc b/parmdb/ParmFacadeLocal.cc
index 97c3b2d..36bb496 100644
--- a/parmdb/ParmFacadeLocal.cc
+++ b/parmdb/ParmFacadeLocal.cc
@@ -166,17 +166,18 @@ Record ParmFacadeLocal::getValues(const std::string& parmNamePattern,
   if (timeStep <= 0) {
     timeStep = itsPDB.getDefaultSteps()[1];
   }
-  int nfreq, ntime;
-  if (asStartEnd) {
-    nfreq = std::max(1, int((freqv2 - freqv1) / freqStep + 0.5));
-    ntime = std::max(1, int((timev2 - timev1) / timeStep + 0.5));
-  } else {
-    nfreq = std::max(1, int(freqv2 / freqStep + 0.5));
-    ntime = std::max(1, int(timev2 / timeStep + 0.5));
-  }
+  if (!asStartEnd) {
+    // Convert the center and width of the domain to its start and end.
+    freqv1 -= freqv2 / 2;
+    freqv2 += freqv1;
+    timev1 -= timev2 / 2;
+    timev2 += timev1;
+  }
+  const int nfreq = std::max(1, int((freqv2 - freqv1) / freqStep + 0.5));
+  const int ntime = std::max(1, int((timev2 - timev1) / timeStep + 0.5));
   // Create the predict grid.
-  Axis::ShPtr axisx(new RegularAxis(freqv1, freqv2, nfreq, asStartEnd));
-  Axis::ShPtr axisy(new RegularAxis(timev1, timev2, ntime, asStartEnd));
+  Axis::ShPtr axisx(new RegularAxis(freqv1, freqv2, nfreq, true));
+  Axis::ShPtr axisy(new RegularAxis(timev1, timev2, ntime, true));
   return doGetValues(parmNamePattern, Grid(axisx, axisy), includeDefaults);
 }
 
-- 
2.43.0


From a337872443ea6c0f2e5f9e92451b44e7c86cb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 73/74] fix: ParmDBCasa::clearTables: make the database usable
 again

---
 parmdb/ParmDBCasa.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parmdb/ParmDBCasa.cc b/parmdb/ParmDBCasa.cc
index dde08fc..5b81455 100644
--- a/parmdb/ParmDBCasa.cc
+++ b/parmdb/ParmDBCasa.cc
@@ -151,7 +151,12 @@ void ParmDBCasa::clearTables() {
     TableLocker locker(itsTables[i], FileLocker::Write);
     casacore::Vector<common::rownr_t> rows = itsTables[i].rowNumbers();
     itsTables[i].removeRow(rows);
+    if (i == 1) {
+      // The unique ids are the row numbers in the names table.
+      itsTables[i].rwKeywordSet().define("UNIQUE_ID", 0u);
+    }
   }
+  clearDefFilled();
 }
 
 void ParmDBCasa::setDefaultSteps(const std::vector<double>& steps) {
-- 
2.43.0


From b043a2e05f6eb481c57a19aeaa45f47ba5c20bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 74/74] fix: Axis::makeAxis: keep gaps between cells

---
 parmdb/Axis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 24c81ae..6589aa4 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -318,10 +318,12 @@ Axis::ShPtr Axis::add(const Axis& that) const {
 Axis::ShPtr Axis::makeAxis(const std::vector<double>& low,
                            const std::vector<double>& upp) {
   assert(low.size() == upp.size() && low.size() > 0);
-  // Check if the width is constant, thus if the result is a regular axis.
+  // Check if the width is constant and the cells are contiguous, thus if the
+  // result is a regular axis.
   double width = upp[0] - low[0];
   for (unsigned int i = 1; i < low.size(); ++i) {
-    if (!casacore::near(width, upp[i] - low[i])) {
+    if (!casacore::near(width, upp[i] - low[i]) ||
+        !casacore::near(upp[i - 1], low[i])) {
       return std::make_shared<OrderedAxis>(low, upp, true);
     }
   }
-- 
2.43.0

