From 68dfae639bca29b1494e45019f226bb6e7f6a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 01/40] fix: read the scoring name 'rmspe' as rmspe, not as
 rmse

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From 5fb59748cd3e7c2ef79a17b2d49317a17653a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 02/40] fix: read the printed names '... (pop)' as the
 population statistics

---
 include/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index d74f38d..ac53529 100644
--- a/include/array.h
+++ b/include/array.h
@@ -231,22 +231,22 @@ inline DescriptiveType FromString_DescriptiveType(const char *v) {
   else if (StartsWith("mea", v) || StartsWith("ave", v))
     return DescriptiveType::kMean;
   else if (StartsWith("var", v)) {
-    if (EndsWith("pop", v))
+    if (EndsWith("pop", v) || EndsWith("pop)", v))
       return DescriptiveType::kVariancePop;
     else
       return DescriptiveType::kVariance;
   } else if (StartsWith("std", v)) {
-    if (EndsWith("pop", v))
+    if (EndsWith("pop", v) || EndsWith("pop)", v))
       return DescriptiveType::kStdPop;
     else
       return DescriptiveType::kStd;
   } else if (StartsWith("ske", v)) {
-    if (EndsWith("pop", v))
+    if (EndsWith("pop", v) || EndsWith("pop)", v))
       return DescriptiveType::kSkewnessPop;
     else
       return DescriptiveType::kSkewness;
   } else if (StartsWith("kur", v)) {
-    if (EndsWith("pop", v))
+    if (EndsWith("pop", v) || EndsWith("pop)", v))
       return DescriptiveType::kKurtosisPop;
     else
       return DescriptiveType::kKurtosis;
-- 
2.43.0


From 41e127d7af8d756392a675dbf4485f6cd0713a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 03/40] fix: give scalar members that no constructor sets a
 defined initial value

---
 include/frequency.h                           |  2 +-
 include/math/optimization.h                   |  2 +-
 .../inference/models/discrete_choice.h        |  4 ++--
 .../math/statistics/inference/models/varma.h  | 14 +++++------
 include/math/statistics/inference/searchers.h | 24 +++++++++----------
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/frequency.h b/include/frequency.h
index 2eea607..cd496f2 100644
--- a/include/frequency.h
+++ b/include/frequency.h
@@ -285,7 +285,7 @@ class LDT_EXPORT Frequency {
 
 public:
   /// @brief Gets the frequency class
-  FrequencyClass mClass;
+  FrequencyClass mClass = FrequencyClass::kCrossSection;
 
   /// @brief Initializes a new instance of the class
   Frequency(){};
diff --git a/include/math/optimization.h b/include/math/optimization.h
index d08f2ca..d870ac7 100644
--- a/include/math/optimization.h
+++ b/include/math/optimization.h
@@ -139,7 +139,7 @@ public:
 
 /// @brief Newton optimization
 class LDT_EXPORT Newton {
-  Ti mK;
+  Ti mK = 0;
 
 public:
   /// @brief Gets the required size of the storage array
diff --git a/include/math/statistics/inference/models/discrete_choice.h b/include/math/statistics/inference/models/discrete_choice.h
index 507b8e8..c19307a 100644
--- a/include/math/statistics/inference/models/discrete_choice.h
+++ b/include/math/statistics/inference/models/discrete_choice.h
@@ -106,10 +106,10 @@ protected:
 
 public:
   /// @brief Model type
-  DiscreteChoiceModelType mModelType;
+  DiscreteChoiceModelType mModelType = DiscreteChoiceModelType::kBinary;
 
   /// @brief Distribution type
-  DiscreteChoiceDistType mDistType;
+  DiscreteChoiceDistType mDistType = DiscreteChoiceDistType::kLogit;
 
   DiscreteChoiceBase(){};
   virtual ~DiscreteChoiceBase(){};
diff --git a/include/math/statistics/inference/models/varma.h b/include/math/statistics/inference/models/varma.h
index ade40b0..88a4ae2 100644
--- a/include/math/statistics/inference/models/varma.h
+++ b/include/math/statistics/inference/models/varma.h
@@ -31,19 +31,19 @@ struct LDT_EXPORT VarmaSizes {
              Ti seasonsCount = 0, bool calculate = true);
 
   /// @brief (Expected) number of observations
-  Ti ObsCount;
+  Ti ObsCount = 0;
 
   /// @brief (Expected) number of equations
-  Ti EqsCount;
+  Ti EqsCount = 0;
 
   /// @brief (Expected) number of exogenous variables
-  Ti ExoCount;
+  Ti ExoCount = 0;
 
   /// @brief Parameters of the ARMA
-  Ti ArP, ArD, ArQ, MaP, MaD, MaQ;
+  Ti ArP = 0, ArD = 0, ArQ = 0, MaP = 0, MaD = 0, MaQ = 0;
 
   /// @brief Number of seasons in the data
-  Ti SeasonsCount;
+  Ti SeasonsCount = 0;
 
   /// @brief Size of AR lags
   Ti ArLength = -1;
@@ -202,7 +202,7 @@ struct LDT_EXPORT VarmaStorage {
                           std::vector<std::string> &result);
 
 private:
-  bool mKeepDetails;
+  bool mKeepDetails = false;
 };
 
 /// @brief VARMA model estimation
@@ -359,7 +359,7 @@ class LDT_EXPORT VarmaExtended {
 
 public:
   bool mCheckNan = false;
-  VarmaRestrictionType mRestriction;
+  VarmaRestrictionType mRestriction = VarmaRestrictionType::kNone;
   PcaAnalysisOptions *pPcaOptionsY = nullptr;
   PcaAnalysisOptions *pPcaOptionsX = nullptr;
   Ti mHorizon = 0;
diff --git a/include/math/statistics/inference/searchers.h b/include/math/statistics/inference/searchers.h
index 4534c6d..d24dcac 100644
--- a/include/math/statistics/inference/searchers.h
+++ b/include/math/statistics/inference/searchers.h
@@ -77,19 +77,19 @@ struct LDT_EXPORT SearchData {
   Matrix<Tv> NewX;
 
   /// @brief number of endogenous variables
-  Ti NumEndo;
+  Ti NumEndo = 0;
 
   /// @brief number of exogenous variables
-  Ti NumExo;
+  Ti NumExo = 0;
 
   /// @brief Box-Cox transformation parameters
   std::vector<Tv> Lambdas;
 
   /// @brief indicating whether the data includes an intercept
-  bool HasIntercept;
+  bool HasIntercept = false;
 
   /// @brief indicating whether the data includes weights
-  bool HasWeight;
+  bool HasWeight = false;
 };
 
 /// @brief parameters for 2-level nested loop
@@ -102,16 +102,16 @@ struct SearchCombinations {
   std::vector<std::vector<Ti>> Partitions;
 
   /// @brief number of fixed partitions.
-  Ti NumFixPartitions;
+  Ti NumFixPartitions = 0;
 
   /// @brief number of fixed items in each partition
-  Ti NumFixItems;
+  Ti NumFixItems = 0;
 
   /// @brief List of inner groups.
   std::vector<std::vector<Ti>> InnerGroups;
 
   /// @brief number of targets
-  Ti NumTargets;
+  Ti NumTargets = 0;
 };
 
 /// @brief Search options
@@ -125,7 +125,7 @@ struct LDT_EXPORT SearchOptions {
 
   /// @brief determines the interval between reporting the result.
   /// To be used by R
-  Ti ReportInterval;
+  Ti ReportInterval = 0;
 };
 
 /// @brief Search measuring options
@@ -159,7 +159,7 @@ struct LDT_EXPORT SearchMetricOptions {
   /// this seed).
   /// @remark For development: Don't use unsigned Ti, in order to allow negative
   /// values for specific purposes
-  Ti Seed;
+  Ti Seed = 0;
 
   /// @brief Evaluation horizons for out-of-sample simulations of time-series
   /// data
@@ -412,7 +412,7 @@ private:
 
 protected:
   /// @brief An integer for adjusting the value of \ref CurrentIndices
-  bool CheckForEmpty;
+  bool CheckForEmpty = false;
 
   /// @brief Number of selected partitions
   Ti NumPartitions = 0;
@@ -472,7 +472,7 @@ public:
 
   /// @brief A pointer to the provided \ref SearchOptions. Not 'const' so that
   /// we can set 'RequestCancel' in the searcher
-  SearchOptions *pOptions; // don't use 'const'
+  SearchOptions *pOptions = nullptr; // don't use 'const'
 
   /// @brief A pointer to the provided \ref SearchModelChecks
   const SearchModelChecks *pChecks = nullptr;
@@ -630,7 +630,7 @@ public:
   const SearchItems *pItems = nullptr;
 
   /// @brief A pointer to the provided \ref SearchOptions
-  const SearchOptions *pOptions; // don't use 'const' so that we can set
+  const SearchOptions *pOptions = nullptr; // don't use 'const' so that we can set
                                  // 'RequestCancel' in the searcher
 
   /// @brief A pointer to the provided \ref SearchModelChecks
-- 
2.43.0


From cd18c6620bf2d3474dcc21361c9ac264b65d9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 04/40] fix: do not release QR's scratch array twice

---
 src/matrix/matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..4f5e780 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2384,8 +2384,6 @@ template <typename Tw> Ti Matrix<Tw>::QR(Matrix<Tw> &Q, Matrix<Tw> &R) {
 
   Ti info = QR0(tau);
 
-  delete[] tau;
-
   if (info != 0)
     return info;
 
-- 
2.43.0


From 86c0a190d5bc8e3e7ad3bbd4408e9e241a3a4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 05/40] fix: release the season counters when a seasonal
 decomposition fails

---
 src/ldt_statistics/statistics/descriptive.cpp | 30 ++-----------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 7e349be..5f88267 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -208,26 +208,8 @@ void Descriptive::SeasonalDecompositionMa(Matrix<Tv> &storage_trend,
   double m;
   Ti T, f, j;
 
-  bool del = false;
-  if (!trendcoefs) {
-    throw LdtException(ErrorType::kLogic, "descriptive",
-                       "not implemented"); // fix new
-
-    del = true;
-    double sc = static_cast<double>(seasonCount);
-    if (seasonCount % 2 == 0) {
-      trendcoefs =
-          new Matrix<Tv>(1.0, new double[seasonCount + 1], seasonCount + 1, 1);
-      trendcoefs->Divide_in(sc);
-      trendcoefs->Data[0] /= 2.0;
-      trendcoefs->Data[seasonCount] /= 2.0;
-    } else {
-      auto td = std::make_unique<double[]>(seasonCount);
-      trendcoefs =
-          new Matrix<Tv>(1.0, td.get(), seasonCount, 1); // TODO: remove new
-      trendcoefs->Divide_in(sc);
-    }
-  }
+  if (!trendcoefs)
+    throw LdtException(ErrorType::kLogic, "descriptive", "not implemented");
 
   FilterMa(*trendcoefs, trend_centred, storage_trend);
 
@@ -237,7 +219,7 @@ void Descriptive::SeasonalDecompositionMa(Matrix<Tv> &storage_trend,
     pArray->Subtract0(storage_trend, storage_seasonal);
 
   T = pArray->length();
-  auto count = new Ti[seasonCount];
+  auto count = std::vector<Ti>(seasonCount);
   for (j = 0; j < seasonCount; j++) {
     storage_means.Data[j] = 0.0;
     count[j] = 0;
@@ -287,12 +269,6 @@ void Descriptive::SeasonalDecompositionMa(Matrix<Tv> &storage_trend,
     }
   }
 
-  if (del) {
-    delete[] trendcoefs->Data;
-    delete trendcoefs;
-  }
-  if (seasonCount > 0)
-    delete[] count;
 }
 
 void Descriptive::RegressionTrend(double *storage2) {
-- 
2.43.0


From 26a7b95a88db1aa6ce594b6b33b6be5677b6289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 06/40] fix: give DistanceBase and GroupDataBase virtual
 destructors, their derived objects are deleted through them

---
 include/math/statistics/clustering.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/math/statistics/clustering.h b/include/math/statistics/clustering.h
index 87e70c0..b1bbc57 100644
--- a/include/math/statistics/clustering.h
+++ b/include/math/statistics/clustering.h
@@ -84,6 +84,7 @@ public:
   Ti WorkSize = 0;
 
   DistanceBase(){};
+  virtual ~DistanceBase(){};
 
   /// @brief After \ref Calculate, it contains the result
   MatrixSym<false> Result;
@@ -315,6 +316,7 @@ public:
   bool NaNDistanceFound = false;
 
   GroupDataBase(){};
+  virtual ~GroupDataBase(){};
 
   virtual void Calculate(const Matrix<Tv> &mat, Tv *work, Ti groupCount,
                          Tv removeThreshold = 0) = 0;
-- 
2.43.0


From 236b3a79e3e2011b12cb61dcfccdd1ccaa794082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 07/40] fix: release the searchers already created when
 building a model set fails

---
 Rpackage/src/r_func.cpp                                        | 3 ++-
 include/math/statistics/inference/models/discrete_choice.h     | 3 +++
 .../modeling/discrete/discrete_choice_modelset.cpp             | 3 ++-
 src/ldt_statistics/modeling/linear/sur_modelset.cpp            | 3 ++-
 .../modeling/time_series/varma/varma_modelset.cpp              | 3 ++-
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 2cc1046..cd6c39d 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -131,7 +131,8 @@ RFuncModelset::RFuncModelset(
     const SearchData &data, const SearchCombinations &combinations,
     SearchOptions &options, SearchItems &items, SearchMetricOptions &metrics,
     SearchModelChecks &checks, bool isTimeSeries, bool isOutOfSampleRandom,
-    const bool &isInnerExogenous, const std::string &rFuncName) {
+    const bool &isInnerExogenous, const std::string &rFuncName)
+    : RFuncModelset() {
 
   metrics.Update(isOutOfSampleRandom, isTimeSeries);
   checks.Update(metrics);
diff --git a/include/math/statistics/inference/models/discrete_choice.h b/include/math/statistics/inference/models/discrete_choice.h
index c19307a..87472f4 100644
--- a/include/math/statistics/inference/models/discrete_choice.h
+++ b/include/math/statistics/inference/models/discrete_choice.h
@@ -664,6 +664,9 @@ public:
                          bool addLogit = true, bool addProbit = false);
 
   virtual ~DiscreteChoiceModelset();
+
+private:
+  DiscreteChoiceModelset(){};
 };
 
 extern template class ldt::DiscreteChoiceModelset<
diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..f74eabb 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -343,7 +343,8 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
     SearchOptions &options, SearchItems &items, SearchMetricOptions &metrics,
     SearchModelChecks &checks, const Matrix<Tv> &source,
     std::vector<Matrix<Tv>> &costMatrixes, Newton &newtonOptions,
-    RocOptions &aucOptions, bool addLogit, bool addProbit) {
+    RocOptions &aucOptions, bool addLogit, bool addProbit)
+    : DiscreteChoiceModelset() {
 
   // find numChoices
   Ti r = 0;
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..d283416 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -168,7 +168,8 @@ SurModelset::SurModelset(const SearchData &data,
                          SearchOptions &options, SearchItems &items,
                          SearchMetricOptions &metrics,
                          SearchModelChecks &checks, Ti sigSearchMaxIter,
-                         Tv sigSearchMaxProb) {
+                         Tv sigSearchMaxProb)
+    : SurModelset() {
   metrics.Update(true, false);
   checks.Update(metrics);
   items.Update(metrics, items.LengthTargets, items.LengthEndogenous,
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..41b3f1b 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -307,7 +307,8 @@ VarmaModelset::VarmaModelset(const SearchData &data,
                              std::vector<Ti> varmaMaxParameters6,
                              Ti seasonCount, bool usePreviousEstim,
                              LimitedMemoryBfgsbOptions *optimOptions,
-                             Tv stdMultiplier, Ti maxHorizonCheck) {
+                             Tv stdMultiplier, Ti maxHorizonCheck)
+    : VarmaModelset() {
   metrics.Update(false, true);
   checks.Update(metrics);
   items.Update(metrics, items.LengthTargets, items.LengthEndogenous,
-- 
2.43.0


From f2d1b780242783a9282bbcefd87822b8eff40dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 08/40] fix: report a singular matrix instead of continuing
 with it (sur, varma, discrete choice, polynomial inverse)

---
 src/ldt_math/polynomials/mpolynomial.cpp                 | 5 ++++-
 src/ldt_statistics/modeling/discrete/discrete_choice.cpp | 8 ++++++--
 src/ldt_statistics/modeling/linear/sur.cpp               | 3 ++-
 src/ldt_statistics/modeling/time_series/varma/varma.cpp  | 3 ++-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..99a055d 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -150,11 +150,14 @@ void PolynomialMInvert::Calculate(const PolynomialM &a, Tv *storage, Tv *work,
 
   Result.Data(maxLength - 1, size, storage);
 
+  Ti info = 0;
   try {
-    a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
+    info = a.Coefficients.at(0)->Inv(*Result.Coefficients.at(0));
   } catch (...) {
     throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
   }
+  if (info != 0)
+    throw LdtException(ErrorType::kLogic, "mpoly", "'A0' is not invertible");
 
   auto inv0 = Result.Coefficients.at(0);
   auto s2 = size * size;
diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
index 113cb28..a07dd12 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
@@ -429,7 +429,9 @@ void DiscreteChoice<modelType, distType>::EstimateBinary(const Matrix<Tv> &y,
   auto ipiv = std::make_unique<int[]>(k);
 
   this->condition_number = this->BetaVar.Norm('1'); // condition number
-  this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  if (this->BetaVar.Inv00(ipiv.get(), Hi.Data) != 0)
+    throw LdtException(ErrorType::kLogic, "discrete-choice",
+                       "matrix singularity");
   this->condition_number *= this->BetaVar.Norm('1');
 
   this->LogL = -this->Optim.FunctionValue;
@@ -1048,7 +1050,9 @@ void DiscreteChoice<modelType, distType>::EstimateOrdered(const Matrix<Tv> &y,
   hfun(this->Beta, this->BetaVar); // hessian gets destroyed in optimization
   auto ipiv = std::make_unique<int[]>(k);
   Hi.Restructure0(k, k);
-  this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  if (this->BetaVar.Inv00(ipiv.get(), Hi.Data) != 0)
+    throw LdtException(ErrorType::kLogic, "discrete-choice",
+                       "matrix singularity");
 
   this->LogL = -this->Optim.FunctionValue;
   calculate_goodness(*this);
diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..852a342 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -243,7 +243,8 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   auto V_o_xRtz = Matrix<Tv>(&work[q], qStar, (Ti)1);
   q += qStar;
 
-  resid_var.Inv0();             // S^-1
+  if (resid_var.Inv0() != 0)    // S^-1
+    throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
   x.Dot_AtA(xtx);               // X'X: kxk
   resid_var.Kron(xtx, V_o_xtx); // S^-1 o X'X
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..b03e422 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -538,7 +538,8 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
     derv.CalculateSecond(fun, Result.gamma, Result.gammavar.Data,
                          derv_work); // note that in this case you should
                                      // have asked for second derivative
-    Result.gammavar.Inv0();
+    if (Result.gammavar.Inv0() != 0)
+      throw LdtException(ErrorType::kLogic, "varma", "matrix singularity");
     Result.gammavar.Multiply_in(2);
 
     // update values
-- 
2.43.0


From fbc0d9a7c724db089b0fd8f726d6c47b182b48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 09/40] fix: raise the error for AUC of ordered models, it was
 built but not thrown

---
 .../modeling/discrete/discrete_choice_modelset.cpp             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index f74eabb..f27f7c3 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -92,7 +92,8 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::DiscreteChoiceSearcher(
 
   if (metrics.MetricInIndices.at(GoodnessOfFitType::kAuc) >= 0) {
     if (modelType != DiscreteChoiceModelType::kBinary)
-      std::logic_error("not implemented discrete choice model type");
+      throw LdtException(ErrorType::kLogic, "dc-modelset",
+                         "not implemented (model type): AUC");
 
     if (hasWeight && metrics.WeightedEval)
       AucIn = std::make_unique<ROC<true, false>>(num_obs);
-- 
2.43.0


From 365fe6b042e8eb318f72798b4ecd4d88ce43c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 10/40] fix: report a failing enumeration, and keep errors
 inside the parallel region

---
 .../modeling/search/modelset.cpp              | 26 +++++++++++++++----
 .../modeling/search/searcher.cpp              |  7 +++--
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..2939ecd 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -70,13 +70,27 @@ void ModelSet::Start(Tv *work, Ti *workI) {
     */
 
 #ifdef _OPENMP
+    std::string error; // an exception must not leave the parallel region
 #pragma omp parallel for
     for (Ti i = 0; i < (Ti)pSearchers->size(); i++) {
-      auto item = pSearchers->at(i);
-      auto w = std::make_unique<Tv[]>(item->WorkSize);
-      auto wI = std::make_unique<Ti[]>(item->WorkSizeI);
-      item->Start(w.get(), wI.get());
+      std::string message;
+      try {
+        auto item = pSearchers->at(i);
+        auto w = std::make_unique<Tv[]>(item->WorkSize);
+        auto wI = std::make_unique<Ti[]>(item->WorkSizeI);
+        message = item->Start(w.get(), wI.get());
+      } catch (std::exception &ex) {
+        message = ex.what();
+      } catch (...) {
+        message = "unknown error occurred";
+      }
+      if (message.empty() == false) {
+#pragma omp critical
+        error = message;
+      }
     }
+    if (error.empty() == false)
+      throw LdtException(ErrorType::kLogic, "modelset", error);
 #else
     throw LdtException(ErrorType::kLogic, "sur-modelset",
                        "parallel execution is not supported");
@@ -92,7 +106,9 @@ void ModelSet::Start(Tv *work, Ti *workI) {
     for (auto &s : *pSearchers) {
       if (pOptions->RequestCancel == true)
         break;
-      s->Start(work, workI);
+      auto message = s->Start(work, workI);
+      if (message.empty() == false)
+        throw LdtException(ErrorType::kLogic, "modelset", message);
     }
   }
 }
diff --git a/src/ldt_statistics/modeling/search/searcher.cpp b/src/ldt_statistics/modeling/search/searcher.cpp
index 559e9c8..9426371 100644
--- a/src/ldt_statistics/modeling/search/searcher.cpp
+++ b/src/ldt_statistics/modeling/search/searcher.cpp
@@ -188,10 +188,13 @@ std::string Searcher::Start(Tv *work, Ti *workI) {
 
     mIsFinished = true;
     // finalize
-  } catch (...) {
-    // throw;
+  } catch (std::exception &ex) {
     //  finalize (of course, this should no happen)
     mIsFinished = true;
+    return std::string("enumerating models failed: ") + ex.what();
+  } catch (...) {
+    mIsFinished = true;
+    return std::string("enumerating models failed");
   }
   return "";
 }
-- 
2.43.0


From bc76c8842c453c034983f1ef044859b2c2f02921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 11/40] fix: shuffle the searchers in the same order in each
 run

---
 src/ldt_statistics/modeling/search/modelset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 2939ecd..642770d 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -47,9 +47,9 @@ ModelSet::ModelSet(std::vector<Searcher *> &searchers, const SearchData &data,
 void ModelSet::Start(Tv *work, Ti *workI) {
 
   if (ShuffleSearchers) {
-    // Shuffle (in order to distribute sizes)
-    std::random_device rdev{};
-    std::mt19937 eng = std::mt19937(rdev());
+    // Shuffle (in order to distribute sizes). The order must be the same in each
+    // run, otherwise ties and sums depend on it
+    std::mt19937 eng{};
     std::shuffle(this->pSearchers->begin(), this->pSearchers->end(), eng);
   }
 
-- 
2.43.0


From f682f829803f8d2a11c860cc4ba387a0844afb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 12/40] fix: extreme bounds start from the lowest value, not
 the smallest positive one

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 642770d..fb49bfa 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -268,7 +268,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From 8059ecea7fff333476b79dfb3e2dab87ce6b46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 13/40] fix: read the type-one means and variances of an R
 model from their own elements

---
 Rpackage/src/r_func.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index cd6c39d..a1b70d9 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -95,7 +95,7 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (resList["type1means"] != R_NilValue) {
       if (TYPEOF(resList["type1means"]) != REALSXP)
         stop("The 'type1means' element is not a numeric matrix.");
-      auto type1meansR = as<NumericMatrix>(resList["metrics"]);
+      auto type1meansR = as<NumericMatrix>(resList["type1means"]);
       if (type1Mean.Mat.RowsCount != type1meansR.nrow() ||
           type1Mean.Mat.ColsCount != type1meansR.ncol())
         stop("The 'type1means' element has invalid dimension. ");
@@ -106,7 +106,7 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (resList["type1vars"] != R_NilValue) {
       if (TYPEOF(resList["type1vars"]) != REALSXP)
         stop("The 'type1vars' element is not a numeric matrix.");
-      auto type1varsR = as<NumericMatrix>(resList["metrics"]);
+      auto type1varsR = as<NumericMatrix>(resList["type1vars"]);
       if (type1Var.Mat.RowsCount != type1varsR.nrow() ||
           type1Var.Mat.ColsCount != type1varsR.ncol())
         stop("The 'type1vars' element has invalid dimension. ");
-- 
2.43.0


From e84e5e7679a853e26d9f74025f90111268266cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 14/40] fix: end the progress loop and report the error when
 the search fails

---
 Rpackage/src/r_dc.cpp    | 8 +++++++-
 Rpackage/src/r_sur.cpp   | 8 +++++++-
 Rpackage/src/r_varma.cpp | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index ad55201..0796b86 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -96,11 +96,17 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model->CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model->Start(W.get(), Wi.get());
+    try {
+      model->Start(W.get(), Wi.get());
+    } catch (...) {
+      estimating = false; // otherwise, the loop in the main thread never ends
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model->Modelset, estimating, options_, alli);
+  f.get(); // report the error, if any
 
   if (options_.RequestCancel)
     return R_NilValue;
diff --git a/Rpackage/src/r_sur.cpp b/Rpackage/src/r_sur.cpp
index a8ac964..78af919 100644
--- a/Rpackage/src/r_sur.cpp
+++ b/Rpackage/src/r_sur.cpp
@@ -56,11 +56,17 @@ SEXP SearchSur(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model.CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model.Modelset.Start(W.get(), nullptr);
+    try {
+      model.Modelset.Start(W.get(), nullptr);
+    } catch (...) {
+      estimating = false; // otherwise, the loop in the main thread never ends
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model.Modelset, estimating, options_, alli);
+  f.get(); // report the error, if any
 
   if (options_.RequestCancel)
     return R_NilValue;
diff --git a/Rpackage/src/r_varma.cpp b/Rpackage/src/r_varma.cpp
index c5da082..da09cef 100644
--- a/Rpackage/src/r_varma.cpp
+++ b/Rpackage/src/r_varma.cpp
@@ -83,11 +83,17 @@ SEXP SearchVarma(List data, List combinations, List metrics, List modelChecks,
   // handle unhandled exceptions in the async function
   // model.CheckStart();
   auto f = std::async(std::launch::async, [&] {
-    model.Modelset.Start(W.get(), nullptr);
+    try {
+      model.Modelset.Start(W.get(), nullptr);
+    } catch (...) {
+      estimating = false; // otherwise, the loop in the main thread never ends
+      throw;
+    }
     estimating = false;
   });
 
   ReportProgress(model.Modelset, estimating, options_, alli);
+  f.get(); // report the error, if any
 
   if (options_.RequestCancel)
     return R_NilValue;
-- 
2.43.0


From bc2fb75b88690c1a9e2d1cb82189ba0343a3fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 15/40] fix: discrete choice metrics requested first in the
 list were not computed

---
 .../modeling/discrete/discrete_choice_modelset.cpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index f27f7c3..9f1fe48 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -200,13 +200,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
       Probs.SetData(&work[s]);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -225,7 +225,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -236,7 +236,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -419,9 +419,9 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
+  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >=
                  0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) >= 0) {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From f06872a858bf2c7ea22881bbe8ff68581fc1a4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 16/40] fix: in-sample Brier score used rows removed from the
 sample

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 9f1fe48..3317c64 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -202,7 +202,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
     if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-- 
2.43.0


From 785dfda917367a88041a8f1b7c0d2044d8cd95a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 17/40] fix: metrics that a searcher does not calculate were
 recorded as zero

---
 src/ldt_statistics/modeling/search/searcher_reg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ldt_statistics/modeling/search/searcher_reg.cpp b/src/ldt_statistics/modeling/search/searcher_reg.cpp
index 58776bd..64de29b 100644
--- a/src/ldt_statistics/modeling/search/searcher_reg.cpp
+++ b/src/ldt_statistics/modeling/search/searcher_reg.cpp
@@ -87,6 +87,8 @@ std::string SearcherReg::EstimateOne(Tv *work, Ti *workI) {
   if (TargetsPositions.size() == 0)
     throw LdtException(ErrorType::kLogic, "searcher-reg", "No targets!");
   auto metrics = VMatrix<Tv>(numMeas, (Ti)TargetsPositions.size());
+  // metrics that the derived class does not calculate must not be recorded
+  metrics.Mat.SetValue(NAN);
 
   auto extra = VMatrix<Ti>(mExtraLength);
 
-- 
2.43.0


From b1c3e8e2b296012581f99c46ee88ed65c3324dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 18/40] fix: results of a target were read from the equation at
 the target's rank, not its own equation

---
 include/math/statistics/inference/searchers.h |  4 +++
 .../modeling/linear/sur_modelset.cpp          | 23 ++++++++++-----
 .../modeling/search/searcher_reg.cpp          | 17 +++++++----
 .../time_series/varma/varma_modelset.cpp      | 29 +++++++++++++------
 4 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/include/math/statistics/inference/searchers.h b/include/math/statistics/inference/searchers.h
index d24dcac..8a296ce 100644
--- a/include/math/statistics/inference/searchers.h
+++ b/include/math/statistics/inference/searchers.h
@@ -579,6 +579,10 @@ protected:
   /// @brief A mapping between the index of dependent variable and the targets
   std::vector<Ti> TargetsPositions;
 
+  /// @brief For each item of \ref TargetsPositions, its position among the
+  /// dependent variables of the current model
+  std::vector<Ti> TargetsEquations;
+
   std::string EstimateOne(Tv *work, Ti *workI) override;
 
   /// @brief Override this function instead of \ref EstimateOne. It manages
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index d283416..87d789d 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -108,32 +108,38 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.Results.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMae);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.Results.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMape);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.Results.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmse);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.Results.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmspe);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.Results.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kCrps);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.Results.Get0(ind, TargetsEquations.at(t)));
   }
 
   if (this->pOptions->RequestCancel)
@@ -149,9 +155,10 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
       for (const auto &b : this->CurrentIndices.Vec) {
         i++;
         Ti a = b - this->pData->NumEndo;
-        type1Mean.Mat.Set0(a, t, DModel.Model.beta.Get0(i, t));
+        Ti e = TargetsEquations.at(t);
+        type1Mean.Mat.Set0(a, t, DModel.Model.beta.Get0(i, e));
         type1Var.Mat.Set0(a, t,
-                          std::pow(DModel.Model.e_beta_std.Get0(i, t), 2));
+                          std::pow(DModel.Model.e_beta_std.Get0(i, e), 2));
       }
     }
   }
diff --git a/src/ldt_statistics/modeling/search/searcher_reg.cpp b/src/ldt_statistics/modeling/search/searcher_reg.cpp
index 64de29b..be2e354 100644
--- a/src/ldt_statistics/modeling/search/searcher_reg.cpp
+++ b/src/ldt_statistics/modeling/search/searcher_reg.cpp
@@ -47,9 +47,11 @@ SearcherReg::SearcherReg(const SearchData &data,
       ColIndices.at(InnerIndices.size()) = this->pData->NumEndo;
 
     // we can set targets here
-    for (auto &a : innerIndices) {
-      if (a < items.LengthTargets)
-        TargetsPositions.push_back(a);
+    for (Ti i = 0; i < (Ti)innerIndices.size(); i++) {
+      if (innerIndices.at(i) < items.LengthTargets) {
+        TargetsPositions.push_back(innerIndices.at(i));
+        TargetsEquations.push_back(i);
+      }
     }
     if (TargetsPositions.size() == 0)
       throw LdtException(ErrorType::kLogic, "sur-modelset",
@@ -68,9 +70,12 @@ std::string SearcherReg::EstimateOne(Tv *work, Ti *workI) {
 
     // update target indices
     TargetsPositions.clear();
-    for (auto &a : CurrentIndices.Vec) {
-      if (a < pItems->LengthTargets)
-        TargetsPositions.push_back(a);
+    TargetsEquations.clear();
+    for (Ti i = 0; i < (Ti)CurrentIndices.Vec.size(); i++) {
+      if (CurrentIndices.Vec.at(i) < pItems->LengthTargets) {
+        TargetsPositions.push_back(CurrentIndices.Vec.at(i));
+        TargetsEquations.push_back(i);
+      }
     }
   } else {
     Ti w = pData->HasWeight ? 1 : 0;
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 41b3f1b..63ff7e5 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -241,37 +241,44 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.ResultAggs.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kDirection);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.ResultAggs.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMae);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.ResultAggs.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMape);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.ResultAggs.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmse);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.ResultAggs.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmspe);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.ResultAggs.Get0(ind, TargetsEquations.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kCrps);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t,
+                         Model.ResultAggs.Get0(ind, TargetsEquations.at(t)));
   }
 
   if (this->pOptions->RequestCancel)
@@ -286,8 +293,12 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
       // length1 is the max horizon
       for (Ti i = 0; i < this->pItems->Length1; i++) {
 
-        type1Mean.Mat.Set(i, t, FModel.Forecast.Get(t, i + FModel.StartIndex));
-        type1Var.Mat.Set(i, t, FModel.Variance.Get(t, i + FModel.StartIndex));
+        type1Mean.Mat.Set(i, t,
+                          FModel.Forecast.Get(TargetsEquations.at(t),
+                                              i + FModel.StartIndex));
+        type1Var.Mat.Set(i, t,
+                         FModel.Variance.Get(TargetsEquations.at(t),
+                                             i + FModel.StartIndex));
       }
     }
   }
-- 
2.43.0


From 8f899485bc21522220c40ffbd86177eb94daf0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 19/40] fix: models of an R function were always counted as
 failed and left protected objects behind when cancelled

---
 Rpackage/src/r_func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index a1b70d9..d37f707 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -27,6 +27,9 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
                     // time of estimation is larger than reporting, it will
                     // not perform as expected.
 
+  if (this->pOptions->RequestCancel)
+    return "";
+
   Ti num_endo;
   if (this->IsInnerExogenous)
     num_endo = this->CurrentIndices.Vec.size();
@@ -41,9 +44,6 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
     for (int i = 0; i < (Ti)this->ColIndices.size(); i++)
       INTEGER(columnIndicesR)[i] = this->ColIndices[i];
 
-    if (this->pOptions->RequestCancel)
-      return "";
-
     auto F = as<Function>(mFunc);
     SEXP res =
         F(Named("columnIndices", columnIndicesR), Named("numEndo", numEndoR),
@@ -120,7 +120,7 @@ std::string RFuncSearcher::EstimateOneReg(Tv *work, Ti *workI,
   }
 
   UNPROTECT(2);
-  return "TODO";
+  return "";
 }
 
 // #pragma endregion
-- 
2.43.0


From 9a92440fb01aba807e893286744b4e3fdec1484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 20/40] fix: condition number and predictions were not checked
 when the estimation was requested by another check

---
 src/ldt_statistics/modeling/search/summary.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 82e1fe3..8836be8 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -89,15 +89,16 @@ void SearchModelChecks::Update(const SearchMetricOptions &metrics) {
   auto checkSic = std::isinf(MaxSic) == false;
   auto checkR2 = std::isinf(-MinR2) == false;
 
+  if (Estimation == false && (metrics.MetricsIn.size() > 0 || checkN ||
+                              checkDof || checkAic || checkSic || checkR2 ||
+                              Prediction))
+    Estimation = true;
+
   mCheckCN =
       metrics.MetricsOut.size() > 0 && std::isinf(MaxConditionNumber) == false;
   mCheckCN_all = Estimation && std::isinf(MaxConditionNumber) ==
                                    false; // note that maximum condition number
                                           // does not affect estimation here
-
-  if (Estimation == false && (metrics.MetricsIn.size() > 0 || checkN ||
-                              checkDof || checkAic || checkSic || checkR2))
-    Estimation = true;
 }
 
 // #pragma endregion
-- 
2.43.0


From 39df29be292c0af3f40888979896c2a7036e09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 21/40] fix: degrees of freedom of a discrete choice model were
 4 too small

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 3317c64..c22a24e 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -140,7 +140,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > count - num_exo - this->mNumChoices - 2)
+          this->pChecks->MinDof > count - num_exo - (this->mNumChoices - 2))
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 456cc3d753d66d103549f32c0a1e304e585d5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 22/40] fix: the minimum degrees of freedom of a VARMA model
 ignored its autoregressive and moving average parameters

---
 .../modeling/time_series/varma/varma_modelset.cpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 63ff7e5..cf96a67 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -124,7 +124,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > ycount - X.RowsCount)
+          this->pChecks->MinDof > ycount - this->Sizes.NumParamsEq)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From 27fc2c3f21a0320916e46b6bfe94d44e314d17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 23/40] fix: the minimum number of valid simulations was not
 enforced for discrete choice models

---
 .../modeling/discrete/discrete_choice_modelset.cpp          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index c22a24e..d1aa76e 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -179,9 +179,9 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
                     &work[s + Model.StorageSize], &workI[this->NumPartitions],
-                    this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    this->pOptions->RequestCancel, *pAucOptions, true,
+                    nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
-- 
2.43.0


From ab7de4a2af8f75198313faec4c6b041e6b81547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 24/40] fix: skipped simulations were not counted as invalid
 for VARMA models

---
 .../modeling/time_series/varma/varma_simulation.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d37ca81..bc9b0d5 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -360,7 +360,7 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
     }
   }
 
-  if (counter == 0 || invalidCounts > maxInvalidSim)
+  if (counter == 0 || count - ValidCounts > maxInvalidSim)
     throw LdtException(ErrorType::kLogic, "varma-simulation",
                        "model check: minimum valid simulations");
 
-- 
2.43.0


From 3d88e8438d6e7aadbee8319b4a4ea612541c601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 25/40] fix: prediction bounds were ignored when there is no
 out-of-sample metric

---
 .../modeling/time_series/varma/varma_modelset.cpp             | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index cf96a67..084dfca 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -182,9 +182,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
         for (auto &t : this->CurrentIndices.Vec) { // is it a target?
           i++;
           if (t < this->pItems->LengthTargets) {
-            Ti j = -1;
-            for (auto &h : this->pMetrics->Horizons) {
-              j++;
+            for (Ti h = 1; h <= mMaxHorizonCheck; h++) {
 
               if (this->pOptions->RequestCancel)
                 return "";
-- 
2.43.0


From 27f2c5363e6ff0894020ee90b436cc663200cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 26/40] fix: sub-matrix copies accepted negative offsets, short
 sources and small storages

---
 src/matrix/matrix.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 4f5e780..8a05fed 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1094,19 +1094,19 @@ void Matrix<Tw>::SetSub(Ti rowstart, Ti colstart, const Matrix<Tw> &source,
                         Ti colcount) {
   Ti lastrow = rowstart + rowcount;
   Ti lastcol = colstart + colcount;
-  if (lastrow > RowsCount)
+  if (lastrow > RowsCount || rowstart < 0)
     throw std::invalid_argument(
         "inconsistent size: this  'rowstart' or 'rowcount'");
-  if (lastcol > ColsCount)
+  if (lastcol > ColsCount || colstart < 0)
     throw std::invalid_argument(
         "inconsistent size: this 'colstart' or 'colcount'");
 
   Ti sourcelastrow = sourcerowstart + rowcount;
   Ti sourcelastcol = sourcecolstart + colcount;
-  if (sourcelastrow > source.RowsCount)
+  if (sourcelastrow > source.RowsCount || sourcerowstart < 0)
     throw std::invalid_argument(
         "inconsistent size: source  'rowstart' or 'rowcount'");
-  if (sourcelastcol > source.ColsCount)
+  if (sourcelastcol > source.ColsCount || sourcecolstart < 0)
     throw std::invalid_argument(
         "inconsistent size: source 'colstart' or 'colcount'");
 
@@ -1137,19 +1137,19 @@ void Matrix<Tw>::SetSub_t(Ti rowstart, Ti colstart, const Matrix<Tw> &source,
                           Ti colcount) {
   Ti lastrow = rowstart + rowcount;
   Ti lastcol = colstart + colcount;
-  if (lastrow > RowsCount)
+  if (lastrow > RowsCount || rowstart < 0)
     throw std::invalid_argument(
         "inconsistent size: this  'rowstart' or 'rowcount'");
-  if (lastcol > ColsCount)
+  if (lastcol > ColsCount || colstart < 0)
     throw std::invalid_argument(
         "inconsistent size: this 'colstart' or 'colcount'");
 
   Ti sourcelastrow = sourcecolstart + rowcount;
   Ti sourcelastcol = sourcerowstart + colcount;
-  if (sourcelastrow > source.ColsCount)
+  if (sourcelastrow > source.ColsCount || sourcecolstart < 0)
     throw std::invalid_argument(
         "inconsistent size: source  'colstart' or 'colcount'");
-  if (sourcelastcol > source.RowsCount)
+  if (sourcelastcol > source.RowsCount || sourcerowstart < 0)
     throw std::invalid_argument(
         "inconsistent size: source 'rowstart' or 'rowcount'");
 
@@ -1178,8 +1178,10 @@ template <typename Tw>
 void Matrix<Tw>::SetSubVector(Ti start, const Matrix<Tw> &source,
                               Ti sourcestart, Ti count) {
   Ti last = start + count;
-  if (last > RowsCount)
+  if (last > RowsCount || last > length() || start < 0)
     throw std::invalid_argument("inconsistent size: 'start' or 'count'");
+  if (sourcestart + count > source.length() || sourcestart < 0)
+    throw std::invalid_argument("inconsistent size: source");
   SetSubVector0(start, source, sourcestart, count);
 }
 
@@ -1200,17 +1202,18 @@ void Matrix<Tw>::GetSub(Ti rowstart, Ti colstart, Ti rowcount, Ti colcount,
                         Ti storaecolstart) const {
   Ti lastrow = rowstart + rowcount;
   Ti lastcol = colstart + colcount;
-  if (lastrow > RowsCount)
+  if (lastrow > RowsCount || rowstart < 0)
     throw std::invalid_argument(
         "inconsistent size: this  'rowstart' or 'rowcount'");
-  if (lastcol > ColsCount)
+  if (lastcol > ColsCount || colstart < 0)
     throw std::invalid_argument(
         "inconsistent size: this 'colstart' or 'colcount'");
 
   auto storreqrow = rowcount + storagerowstart;
   auto storreqcol = colcount + storaecolstart;
 
-  if (storage.RowsCount > storreqrow || storage.ColsCount > storreqcol)
+  if (storage.RowsCount < storreqrow || storage.ColsCount < storreqcol ||
+      storagerowstart < 0 || storaecolstart < 0)
     throw std::invalid_argument("inconsistent size in get sub (1). ");
 
   GetSub0(rowstart, colstart, rowcount, colcount, storage, storagerowstart,
-- 
2.43.0


From 203e5f31947fd303430bb5355c8e7049d11df9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 27/40] fix: GetSub with lists of indices did not check the
 indices

---
 src/matrix/matrix.cpp | 108 ++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 56 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 8a05fed..4e7bbc1 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1233,62 +1233,50 @@ void Matrix<Tw>::GetSub(Ti firststart, Ti firstcount,
                         const std::vector<Ti> &secondindexes, bool firstIsRow,
                         Matrix<Tw> &storage, Ti storagerowstart,
                         Ti storaecolstart, bool exclude) const {
+  Ti allcount = firstIsRow ? ColsCount : RowsCount;
   if (exclude) {
-    if (firstIsRow) {
-      if (storage.RowsCount != firstcount + storagerowstart)
-        throw std::out_of_range(
-            format("index out-of-range in get sub function: storage rows={}, "
-                   "row count={}, storage row start={}",
-                   storage.RowsCount, firstcount, storagerowstart));
-      if (storage.ColsCount !=
-          ColsCount - (Ti)secondindexes.size() + storaecolstart)
-        throw std::out_of_range(format(
-            "index out-of-range in get sub function: storage columns={}, "
-            "columns count={}"
-            "column indices size={}, storage column start={}",
-            storage.ColsCount, ColsCount, secondindexes.size(),
-            storaecolstart));
-    }
-    if (firstIsRow == false) {
-      if (storage.ColsCount != firstcount + storaecolstart)
-        throw std::out_of_range(format(
-            "index out-of-range in get sub function: storage columns={}, "
-            "columns count={}, storage column start={}",
-            storage.ColsCount, firstcount, storaecolstart));
-      if (storage.RowsCount !=
-          RowsCount - (Ti)secondindexes.size() + storagerowstart)
-        throw std::out_of_range(
-            format("index out-of-range in get sub function: storage rows={}, "
-                   "rows count={}"
-                   "row indices size={}, storage row start={}",
-                   storage.RowsCount, RowsCount, secondindexes.size(),
-                   storagerowstart));
-    }
-  } else {
-    if (firstIsRow) {
-      if (storage.RowsCount != firstcount + storagerowstart)
-        throw std::out_of_range(
-            format("index out-of-range in get sub function: storage rows={}, "
-                   "rows count={}, storage row start={}",
-                   storage.RowsCount, firstcount, storagerowstart));
-      if (storage.ColsCount != (Ti)secondindexes.size() + storaecolstart)
-        throw std::out_of_range(format(
-            "index out-of-range in get sub function: storage columns={}, "
-            "column indices size={}, storage column start={}",
-            storage.ColsCount, secondindexes.size(), storaecolstart));
-    }
-    if (firstIsRow == false) {
-      if (storage.ColsCount != firstcount + storaecolstart)
-        throw std::out_of_range(format(
-            "index out-of-range in get sub function: storage columns={}, "
-            "columns count={}, storage row start={}",
-            storage.ColsCount, firstcount, storaecolstart));
-      if (storage.RowsCount != (Ti)secondindexes.size() + storagerowstart)
-        throw std::out_of_range(
-            format("index out-of-range in get sub function: storage rows={}, "
-                   "row indices size={}, storage row start={}",
-                   storage.RowsCount, secondindexes.size(), storagerowstart));
+    // an index can be repeated in the list, so count what remains
+    std::vector<Ti> indexes;
+    for (Ti j = 0; j < allcount; j++) {
+      if (std::find(secondindexes.begin(), secondindexes.end(), j) ==
+          secondindexes.end())
+        indexes.push_back(j);
     }
+    GetSub(firststart, firstcount, indexes, firstIsRow, storage,
+           storagerowstart, storaecolstart, false);
+    return;
+  }
+
+  if (firststart < 0 ||
+      firststart + firstcount > (firstIsRow ? RowsCount : ColsCount) ||
+      storagerowstart < 0 || storaecolstart < 0)
+    throw std::out_of_range("index out-of-range in get sub function.");
+  for (auto &j : secondindexes)
+    if (j < 0 || j >= allcount)
+      throw std::out_of_range("index out-of-range in get sub function.");
+  if (firstIsRow) {
+    if (storage.RowsCount != firstcount + storagerowstart)
+      throw std::out_of_range(
+          format("index out-of-range in get sub function: storage rows={}, "
+                 "rows count={}, storage row start={}",
+                 storage.RowsCount, firstcount, storagerowstart));
+    if (storage.ColsCount != (Ti)secondindexes.size() + storaecolstart)
+      throw std::out_of_range(format(
+          "index out-of-range in get sub function: storage columns={}, "
+          "column indices size={}, storage column start={}",
+          storage.ColsCount, secondindexes.size(), storaecolstart));
+  }
+  if (firstIsRow == false) {
+    if (storage.ColsCount != firstcount + storaecolstart)
+      throw std::out_of_range(format(
+          "index out-of-range in get sub function: storage columns={}, "
+          "columns count={}, storage row start={}",
+          storage.ColsCount, firstcount, storaecolstart));
+    if (storage.RowsCount != (Ti)secondindexes.size() + storagerowstart)
+      throw std::out_of_range(
+          format("index out-of-range in get sub function: storage rows={}, "
+                 "row indices size={}, storage row start={}",
+                 storage.RowsCount, secondindexes.size(), storagerowstart));
   }
   GetSub0(firststart, firstcount, secondindexes, firstIsRow, storage,
           storagerowstart, storaecolstart, exclude);
@@ -1338,9 +1326,17 @@ template <typename Tw>
 void Matrix<Tw>::GetSub(std::vector<Ti> &rowindexes,
                         std::vector<Ti> &colindexes, Matrix<Tw> &storage,
                         Ti storagerowstart, Ti storaecolstart) const {
-  if (storage.RowsCount != (Ti)rowindexes.size() + storagerowstart)
+  for (auto &i : rowindexes)
+    if (i < 0 || i >= RowsCount)
+      throw std::out_of_range("index out-of-range in get sub function.");
+  for (auto &j : colindexes)
+    if (j < 0 || j >= ColsCount)
+      throw std::out_of_range("index out-of-range in get sub function.");
+  if (storage.RowsCount != (Ti)rowindexes.size() + storagerowstart ||
+      storagerowstart < 0)
     throw std::invalid_argument("inconsistent size: 'storage'");
-  if (storage.ColsCount != (Ti)colindexes.size() + storaecolstart)
+  if (storage.ColsCount != (Ti)colindexes.size() + storaecolstart ||
+      storaecolstart < 0)
     throw std::invalid_argument("inconsistent size: 'storage'");
 
   GetSub0(rowindexes, colindexes, storage, storagerowstart, storaecolstart);
-- 
2.43.0


From 28ad19a31633f22a6284878567cb22d59fcadc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 28/40] fix: row and column copies did not check the length of
 the source

---
 src/matrix/matrix.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 4e7bbc1..5cc261f 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -1414,6 +1414,8 @@ template <typename Tw> void Matrix<Tw>::SetRow_minus0(Ti i, Tw value) {
 template <typename Tw> void Matrix<Tw>::SetRow(Ti i, const Matrix<Tw> &source) {
   if (i >= RowsCount || i < 0)
     throw std::invalid_argument("invalid index");
+  if (source.length() < ColsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetRow0(i, source);
 }
 template <typename Tw>
@@ -1429,6 +1431,8 @@ void Matrix<Tw>::SetRowFromRow(Ti i, const Matrix<Tw> &source, Ti k) {
     throw std::invalid_argument("invalid index: i");
   if (k >= source.RowsCount || k < 0)
     throw std::invalid_argument("invalid index: k");
+  if (source.ColsCount < ColsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetRowFromRow0(i, source, k);
 }
 template <typename Tw>
@@ -1461,7 +1465,7 @@ template <typename Tw>
 void Matrix<Tw>::SetSubRow(Ti row, Ti colstart, Matrix<Tw> &source, Ti length) {
   if (row >= RowsCount || row < 0)
     throw std::invalid_argument("invalid index: i");
-  if (colstart + length > ColsCount)
+  if (colstart + length > ColsCount || colstart < 0)
     throw std::invalid_argument("invalid dimension: this");
   if (source.length() < length)
     throw std::invalid_argument("invalid dimension: source");
@@ -1478,6 +1482,8 @@ template <typename Tw>
 void Matrix<Tw>::SetColumn(Ti j, const Matrix<Tw> &source) {
   if (j >= ColsCount || j < 0)
     throw std::invalid_argument("invalid index");
+  if (source.length() < RowsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetColumn0(j, source);
 }
 template <typename Tw>
@@ -1493,12 +1499,14 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
     throw std::invalid_argument("invalid index: j");
   if (k >= source.RowsCount || k < 0)
     throw std::invalid_argument("invalid index: k");
+  if (source.ColsCount < RowsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetColumnFromRow0(j, source, k);
 }
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromRow0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  for (Ti i = 0; i < ColsCount; i++)
+  for (Ti i = 0; i < RowsCount; i++)
     d[i] = source.Get0(k, i);
 }
 
@@ -1508,12 +1516,14 @@ void Matrix<Tw>::SetColumnFromColumn(Ti j, const Matrix<Tw> &source, Ti k) {
     throw std::invalid_argument("invalid index: j");
   if (k >= source.ColsCount || k < 0)
     throw std::invalid_argument("invalid index: k");
+  if (source.RowsCount < RowsCount)
+    throw std::invalid_argument("invalid dimension: source");
   SetColumnFromColumn0(j, source, k);
 }
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromColumn0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  auto b = &source.Data[RowsCount * k];
+  auto b = &source.Data[source.RowsCount * k];
   for (Ti i = 0; i < RowsCount; i++)
     d[i] = b[i];
 }
-- 
2.43.0


From e32485d8e0468d89991ede0d2647437e4566433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 29/40] fix: sorting and summing by index lists did not check
 the indices

---
 src/matrix/matrix.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 5cc261f..055ff53 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -862,6 +862,10 @@ void Matrix<Tw>::SortByVector(Matrix<Tw> &storage, std::vector<Ti> &indexes) {
     throw LdtException(ErrorType::kLogic, "matrix", "invalid length: storage");
   if ((Ti)indexes.size() != this->length())
     throw LdtException(ErrorType::kLogic, "matrix", "invalid size: indexes");
+  for (auto &i : indexes)
+    if (i < 0)
+      throw LdtException(ErrorType::kLogic, "matrix",
+                         "invalid minimum element: indexes");
   auto max = *std::max_element(indexes.begin(), indexes.end());
   if (max > storage.length() - 1)
     throw LdtException(ErrorType::kLogic, "matrix",
@@ -888,6 +892,10 @@ void Matrix<Tw>::SortRowsBy(Matrix<Tw> &storage, std::vector<Ti> &row_indexes) {
   if ((Ti)row_indexes.size() != this->RowsCount)
     throw LdtException(ErrorType::kLogic, "matrix",
                        "invalid size: row_indexes");
+  for (auto &i : row_indexes)
+    if (i < 0)
+      throw LdtException(ErrorType::kLogic, "matrix",
+                         "invalid minimum element: row_indexes");
   auto max = *std::max_element(row_indexes.begin(), row_indexes.end());
   if (max > storage.RowsCount - 1)
     throw LdtException(ErrorType::kLogic, "matrix",
@@ -915,6 +923,10 @@ void Matrix<Tw>::SortColumnsBy(Matrix<Tw> &storage,
   if ((Ti)col_indexes.size() != this->ColsCount)
     throw LdtException(ErrorType::kLogic, "matrix",
                        "invalid size: row_indexes");
+  for (auto &i : col_indexes)
+    if (i < 0)
+      throw LdtException(ErrorType::kLogic, "matrix",
+                         "invalid minimum element: col_indexes");
   auto max = *std::max_element(col_indexes.begin(), col_indexes.end());
   if (max > storage.ColsCount - 1)
     throw LdtException(ErrorType::kLogic, "matrix",
@@ -2966,6 +2978,9 @@ void Matrix<Tw>::RowsSum(Matrix<Tw> &storage, std::vector<Ti> &rowinds) const {
     rowinds.resize(RowsCount);
     std::iota(rowinds.begin(), rowinds.end(), 0);
   }
+  for (auto &ind : rowinds)
+    if (ind < 0 || ind >= RowsCount)
+      throw std::invalid_argument("invalid index: rowinds");
 
   if (storage.length() != (Ti)rowinds.size())
     throw std::invalid_argument("invalid dimension: storage");
@@ -2987,6 +3002,9 @@ void Matrix<Tw>::ColumnsSum(Matrix<Tw> &storage,
     colinds.resize(ColsCount);
     std::iota(colinds.begin(), colinds.end(), 0);
   }
+  for (auto &ind : colinds)
+    if (ind < 0 || ind >= ColsCount)
+      throw std::invalid_argument("invalid index: colinds");
 
   if (storage.length() != (Ti)colinds.size())
     throw std::invalid_argument("invalid dimension: storage");
@@ -3009,6 +3027,9 @@ void Matrix<Tw>::ColumnsMean(Matrix<Tw> &storage,
       colinds.resize(ColsCount);
       std::iota(colinds.begin(), colinds.end(), 0);
     }
+    for (auto &ind : colinds)
+      if (ind < 0 || ind >= ColsCount)
+        throw std::invalid_argument("invalid index: colinds");
 
     if (storage.length() != (Ti)colinds.size())
       throw std::invalid_argument("invalid dimension: storage");
@@ -3037,6 +3058,9 @@ void Matrix<Tw>::ColumnsVariance(Matrix<Tw> &storage, std::vector<Ti> &colinds,
       colinds.resize(ColsCount);
       std::iota(colinds.begin(), colinds.end(), 0);
     }
+    for (auto &ind : colinds)
+      if (ind < 0 || ind >= ColsCount)
+        throw std::invalid_argument("invalid index: colinds");
     auto m = static_cast<Ti>(colinds.size());
     if (storage.RowsCount != m || storage.ColsCount != m)
       throw std::invalid_argument("invalid dimension: storage");
-- 
2.43.0


From 527bbc4810aefd9d25116d4fccf6435c491004d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 30/40] fix: Matrix::Last returned the element after the end

---
 src/matrix/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 055ff53..c2f9b80 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -771,7 +771,7 @@ Ti Matrix<Tw>::RemoveNanVector(Matrix<Tw> &data, Matrix<Tw> &storage) {
 
 // #pragma region linq - like functions
 
-template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length()]; }
+template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length() - 1]; }
 template <typename Tw> Tw Matrix<Tw>::First() { return Data[0]; }
 
 template <typename Tw>
-- 
2.43.0


From f692928ddb6c5d1ebd16ea92aaa5770ea2a22ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 31/40] fix: DotDiag0 looped over columns up to the number of
 rows

---
 src/matrix/matrix_la.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..4a29a06 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -225,7 +225,7 @@ void Matrix<Tw>::TrDotTr0(const Matrix<Tw> &b, Matrix<Tw> &storage, Tw alpha,
 
 template <typename Tw>
 void Matrix<Tw>::DotDiag0(const Matrix<Tw> &b, Matrix<Tw> &storage) const {
-  for (Ti j = 0; j < RowsCount; j++) {
+  for (Ti j = 0; j < ColsCount; j++) {
     for (Ti i = 0; i < RowsCount; i++)
       storage.Set0(i, j, b.Data[j] * Get0(i, j));
   }
-- 
2.43.0


From f9fc9ec85b7636971341e2ca679c400e4935d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 32/40] fix: QR0 passed a scalar as the workspace of dgeqrf

---
 src/matrix/matrix_la.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 4a29a06..5973a64 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -700,13 +700,13 @@ template <typename Tw> Ti Matrix<Tw>::QR0(Tw *tau) {
     return info;
 
   lwork = static_cast<Ti>(dtemp);
-  // auto work0 = std::make_unique<int[]>(lwork);
-  // auto work = work0.get();
+  auto work0 = std::make_unique<Tw[]>(lwork);
+  auto work = work0.get();
 
   if constexpr (std::is_same<Tw, double>()) {
-    dgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    dgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (std::is_same<Tw, float>()) {
-    sgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    sgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "matrix-la", "not implemented");
   }
-- 
2.43.0


From 95fb13b8278adc769b0a7bd80bffe495df6c21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 33/40] fix: model sets accepted an index just outside the
 available variables

---
 .../modeling/discrete/discrete_choice_modelset.cpp           | 5 +++--
 .../modeling/time_series/varma/varma_modelset.cpp            | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index d1aa76e..50a423c 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -405,9 +405,10 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
             ErrorType::kLogic, "dc-modelset",
             "invalid exogenous group element (it is larger than the number "
             "of available variables)");
-      if (a < 0)
+      if (a < 1)
         throw LdtException(ErrorType::kLogic, "dc-modelset",
-                           "invalid exogenous group element (it is negative)");
+                           "invalid exogenous group element (it is less than "
+                           "the index of the first exogenous variable)");
     }
   }
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 084dfca..962a46a 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -333,7 +333,7 @@ VarmaModelset::VarmaModelset(const SearchData &data,
   // check group indexes and create sizes array
   for (auto const &b : combinations.Partitions) {
     for (auto &a : b) {
-      if (a > items.LengthEndogenous)
+      if (a >= items.LengthEndogenous)
         throw LdtException(ErrorType::kLogic, "varma-modelset",
                            "invalid endogenous group element (it is larger "
                            "than the number "
-- 
2.43.0


From 2fe8b866b3cf712fbf6da5f4d1a348841f9558b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 34/40] fix: a group of endogenous variables without a target
 aborted the search

---
 Rpackage/src/r_func.cpp                             | 2 +-
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index d37f707..777b785 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -156,7 +156,7 @@ RFuncModelset::RFuncModelset(
                            "empty endogenous indexes");
 
       if (isInnerExogenous == false) {
-        if (inner_group.at(0) > items.LengthTargets)
+        if (inner_group.at(0) >= items.LengthTargets)
           continue; // no target here
       }
       /*auto seed = metrics.Seed == 0
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 87d789d..38c02c7 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -222,7 +222,7 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (e.at(0) >= items.LengthTargets)
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
-- 
2.43.0


From 9f12800b037439f2414e909e1d9016e2fa803e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 35/40] fix: model sets did not check the indices of the inner
 groups

---
 Rpackage/src/r_func.cpp                       | 20 +++++++++++++++++++
 .../modeling/linear/sur_modelset.cpp          | 10 ++++++++++
 .../time_series/varma/varma_modelset.cpp      |  9 +++++++++
 3 files changed, 39 insertions(+)

diff --git a/Rpackage/src/r_func.cpp b/Rpackage/src/r_func.cpp
index 777b785..6ee0819 100644
--- a/Rpackage/src/r_func.cpp
+++ b/Rpackage/src/r_func.cpp
@@ -139,6 +139,26 @@ RFuncModelset::RFuncModelset(
   items.Update(metrics, items.LengthTargets, items.LengthEndogenous,
                items.LengthExogenous);
 
+  // outer indices belong to one part of the variables, inner ones to the other
+  auto endo = items.LengthEndogenous;
+  auto all = items.LengthEndogenous + items.LengthExogenous;
+  for (auto const &b : combinations.Partitions) {
+    for (auto &a : b) {
+      if (a < (isInnerExogenous ? 0 : endo) ||
+          a >= (isInnerExogenous ? endo : all))
+        throw LdtException(ErrorType::kLogic, "rfunc-modelset",
+                           "invalid index in partitions");
+    }
+  }
+  for (auto const &b : combinations.InnerGroups) {
+    for (auto &a : b) {
+      if (a < (isInnerExogenous ? endo : 0) ||
+          a >= (isInnerExogenous ? all : endo))
+        throw LdtException(ErrorType::kLogic, "rfunc-modelset",
+                           "invalid index in inner groups");
+    }
+  }
+
   unsigned int co = 0;
   for (auto const &size : combinations.Sizes) {
     if (size <= 0)
diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 38c02c7..f458254 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -208,6 +208,16 @@ SurModelset::SurModelset(const SearchData &data,
     }
   }
 
+  for (auto const &b : combinations.InnerGroups) {
+    for (auto &a : b) {
+      if (a < 0 || a >= items.LengthEndogenous)
+        throw LdtException(ErrorType::kLogic, "sur-modelset",
+                           "invalid endogenous group element (it is negative "
+                           "or larger than the number of available endogenous "
+                           "variables)");
+    }
+  }
+
   unsigned int co = 0;
   for (auto const &s : combinations.Sizes) {
     if (s <= 0)
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 962a46a..94e4cd0 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -352,6 +352,15 @@ VarmaModelset::VarmaModelset(const SearchData &data,
       throw LdtException(ErrorType::kLogic, "varma-modelset",
                          "invalid varma parameter");
 
+  for (auto const &b : combinations.InnerGroups) {
+    for (auto &a : b) {
+      if (a < items.LengthEndogenous || a >= source.pData->RowsCount)
+        throw LdtException(ErrorType::kLogic, "varma-modelset",
+                           "invalid exogenous group element (it is not the "
+                           "index of an available exogenous variable)");
+    }
+  }
+
   ExoIndexes = combinations.InnerGroups;
   if (ExoIndexes.size() == 0)
     ExoIndexes.resize(1); // add empty for loop
-- 
2.43.0


From 6c3c9daee5e5d2a6c4df85aed0bdc6cabde8af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 36/40] fix: ParseList made a list from the class text of any
 other frequency

---
 src/frequency/f_list.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..45146da 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -164,11 +164,17 @@ FrequencyList<T>::ParseList(const std::string &str, const std::string &classStr,
   fClass = GetClass(classStr);
 
   if constexpr (std::is_same<T, std::string>()) {
+    if (fClass != FrequencyClass::kListString)
+      throw LdtException(ErrorType::kLogic, "freq-list",
+                         "class string of a list of strings is expected");
     auto f = std::make_unique<FrequencyList<std::string>>("", nullptr);
     FrequencyList<std::string>::Parse0(str, classStr, fClass, *f, &items);
     f->pItems = &items;
     return f;
   } else if constexpr (std::is_same<T, boost::gregorian::date>()) {
+    if (fClass != FrequencyClass::kListDate)
+      throw LdtException(ErrorType::kLogic, "freq-list",
+                         "class string of a list of dates is expected");
     auto f = std::make_unique<FrequencyList<boost::gregorian::date>>(
         boost::gregorian::date(), nullptr);
     FrequencyList<boost::gregorian::date>::Parse0(str, classStr, fClass, *f,
-- 
2.43.0


From 17d4e24dafcb17757ef2af29d3eafa65f6d86daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:37 +0000
Subject: [PATCH 37/40] fix: NelderMead::Minimize adjusts its own copy of the
 starting point, not the caller's

---
 src/ldt_math/optimization/nelder_mead.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ldt_math/optimization/nelder_mead.cpp b/src/ldt_math/optimization/nelder_mead.cpp
index 592d8cd..9b599c9 100644
--- a/src/ldt_math/optimization/nelder_mead.cpp
+++ b/src/ldt_math/optimization/nelder_mead.cpp
@@ -37,7 +37,7 @@ void NelderMead::Minimize(
     const Matrix<Tv> *upper, Tv penaltyMultiplier) {
   Ti n = start.length();
 
-  // Check if starting point is within bounds and adjust if necessary
+  // Check the starting point and the bounds
   for (int i = 0; i < n; i++) {
     if (std::isnan(start.Data[i]))
       throw LdtException(ErrorType::kLogic, "nelder-mead",
@@ -46,12 +46,6 @@ void NelderMead::Minimize(
       throw LdtException(
           ErrorType::kLogic, "nelder-mead",
           "lower bound must be equal or smaller than the upper bound");
-    if (lower && start.Data[i] < lower->Data[i]) {
-      start.Data[i] = lower->Data[i];
-    }
-    if (upper && start.Data[i] > upper->Data[i]) {
-      start.Data[i] = upper->Data[i];
-    }
   }
 
   std::function<Tv(const Matrix<Tv> &)> f = [&](const Matrix<Tv> &x) -> Tv {
@@ -74,6 +68,13 @@ void NelderMead::Minimize(
 
   for (Ti i = 0; i <= n; i++) {
     start.CopyTo00(simplex[i]);
+    // adjust (the copy of) the starting point if it is not within bounds
+    for (Ti j = 0; j < n; j++) {
+      if (lower && simplex[i].Data[j] < lower->Data[j])
+        simplex[i].Data[j] = lower->Data[j];
+      if (upper && simplex[i].Data[j] > upper->Data[j])
+        simplex[i].Data[j] = upper->Data[j];
+    }
     if (i > 0)
       simplex[i].Data[i - 1] += 1.0;
     values.Data[i] = f(simplex[i]);
-- 
2.43.0


From 528fc6aea6665cce6567993c757fdd5ff91e55bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:37 +0000
Subject: [PATCH 38/40] fix: ClusterH clusters a copy of the distances, not the
 vector of the user in R

---
 Rpackage/src/r_clustering.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Rpackage/src/r_clustering.cpp b/Rpackage/src/r_clustering.cpp
index 2b61f8a..3e725a3 100644
--- a/Rpackage/src/r_clustering.cpp
+++ b/Rpackage/src/r_clustering.cpp
@@ -46,7 +46,8 @@ List ClusterH(NumericVector distances, std::string linkage) {
   HClusterLinkage linkage0 = FromString_HClusterLinkage(linkage.c_str());
 
   auto cluster = HClusterBase::GetFromType(linkage0, numVariables);
-  auto mdistances = MatrixSym<false>(&distances[0], numVariables);
+  NumericVector distances0 = clone(distances); // calculations change it
+  auto mdistances = MatrixSym<false>(&distances0[0], numVariables);
   cluster->Calculate(mdistances);
 
   // lets send similar output to R
-- 
2.43.0


From 7196007fd63285e7400893114f38181c2afa020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:29 +0000
Subject: [PATCH 39/40] fix: search.bin honours weightedEval (SearchDc said it
 was not a discrete choice search)

---
 Rpackage/src/r_dc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rpackage/src/r_dc.cpp b/Rpackage/src/r_dc.cpp
index 0796b86..a3be8a7 100644
--- a/Rpackage/src/r_dc.cpp
+++ b/Rpackage/src/r_dc.cpp
@@ -50,7 +50,7 @@ SEXP SearchDc(List data, List combinations, List metrics, List modelChecks,
 
   UpdateOptions(items, metrics, modelChecks, metrics_, items_, checks_,
                 metricsNames, length1, data_.NumExo, combinations_.NumTargets,
-                data_.NumEndo, false, true, "Coefficients", false);
+                data_.NumEndo, false, true, "Coefficients", true);
 
   auto targetNames = std::vector<std::string>(
       colNames.begin(), colNames.begin() + items_.LengthTargets);
-- 
2.43.0


From f9b6fdb0c82b3cca4701075123b10a948fb4918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:29 +0000
Subject: [PATCH 40/40] fix: the pessimistic option of get.options.roc reaches
 the engine

---
 Rpackage/src/r_ldt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rpackage/src/r_ldt.cpp b/Rpackage/src/r_ldt.cpp
index c689171..3a3926d 100644
--- a/Rpackage/src/r_ldt.cpp
+++ b/Rpackage/src/r_ldt.cpp
@@ -273,6 +273,7 @@ void UpdateRocOptions(List &rocOptionsR, RocOptions &options) {
   options.LowerThreshold = as<double>(rocOptionsR["lowerThreshold"]);
   options.UpperThreshold = as<double>(rocOptionsR["upperThreshold"]);
   options.Epsilon = as<double>(rocOptionsR["epsilon"]);
+  options.Pessimistic = as<bool>(rocOptionsR["pessimistic"]);
 
   if (rocOptionsR["costs"] != R_NilValue) {
     auto costs0 = as<NumericVector>(rocOptionsR["costs"]);
-- 
2.43.0

