From aea1faa256f3741ae4dd322fd0f3e58d300bf156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:27 +0000
Subject: [PATCH 01/60] fix: Minkowski distance of order p keeps both
 coordinate differences

The differences are an n x 2 matrix; storing them in a column vector threw
for every order other than 1 and -1.
---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
-- 
2.43.0


From 9197cdefc503562ceca971c00b63d49bf7cab8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:27 +0000
Subject: [PATCH 02/60] fix: Minkowski order 1 is the Manhattan distance, order
 -1 the chessboard one

---
 src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
index 377777a..69bd934 100644
--- a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
+++ b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
@@ -42,8 +42,8 @@ vec MinkwoskiDistance::distance(uword focus)
                 dp = CoordinateRotate(mParameter->dataPoints, mTheta);
                 rp = CoordinateRotate(mParameter->focusPoints.row(focus), mTheta);
             }
-            if (mPoly == 1.0) return ChessDistance(rp, dp);
-            else if (mPoly == -1.0) return ManhattonDist(rp, dp);
+            if (mPoly == 1.0) return ManhattonDist(rp, dp);
+            else if (mPoly == -1.0) return ChessDistance(rp, dp);
             else return MinkwoskiDist(rp, dp, mPoly);
         }
         else throw std::runtime_error("Target is out of bounds of data points.");
-- 
2.43.0


From 341bf8bebfa17bd4173b3131f4189d74a23145a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:27 +0000
Subject: [PATCH 03/60] fix: smallest and largest Minkowski distances use the
 configured metric

The inherited functions used the Euclidean calculator whatever the order.
---
 src/gwmodelpp/spatialweight/CRSDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
-- 
2.43.0


From 67884802e689a568272ced167652363a83dd6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:25 +0000
Subject: [PATCH 04/60] fix: a copied one-dimensional distance keeps its points

Copies (and clones) dropped the parameter, so asking a copy for a distance threw.
---
 src/gwmodelpp/spatialweight/OneDimDistance.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..a0e68d4 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,10 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter)
+    {
+        mParameter = make_unique<Parameter>(*distance.mParameter);
+    }
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From 8d03a79ac4d827f5dc15b119d2dd9ba24dd24341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:25 +0000
Subject: [PATCH 05/60] fix: a copied space-time distance keeps its parameter

A copy threw when asked for its smallest or largest distance.
---
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..e1f8d9b 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -87,6 +87,10 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
     mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
     mCalculator=distance.mCalculator;
+    if (distance.mParameter)
+    {
+        mParameter = make_unique<Parameter>(*distance.mParameter);
+    }
 }
 
 void CRSSTDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From d10dd7c5a145ef09e3be9f79bad52766a1a92a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 06/60] fix: a spatial weight can be given its own weight or
 distance by reference

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..80568ca 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -191,8 +191,9 @@ public:
      */
     void setWeight(Weight& weight)
     {
+        Weight* copy = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = copy;
     }
 
     /**
@@ -210,8 +211,9 @@ public:
      */
     void setWeight(Weight&& weight)
     {
+        Weight* copy = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = copy;
     }
 
     /**
@@ -283,8 +285,9 @@ public:
      */
     void setDistance(Distance& distance)
     {
+        Distance* copy = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = copy;
     }
 
     /**
@@ -302,8 +305,9 @@ public:
      */
     void setDistance(Distance&& distance)
     {
+        Distance* copy = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = copy;
     }
 
     /**
-- 
2.43.0


From c5627596abdbe7ab76ca8242a4aa394b716bc685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 07/60] fix: an empty spatial weight can be copied

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 4 ++--
 src/gwmodelpp/spatialweight/SpatialWeight.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 80568ca..ecd2ae8 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -106,8 +106,8 @@ public:
      */
     SpatialWeight(const SpatialWeight& spatialWeight)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
+        if (spatialWeight.mWeight) mWeight = spatialWeight.mWeight->clone();
+        if (spatialWeight.mDistance) mDistance = spatialWeight.mDistance->clone();
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..de21b3e 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -28,8 +28,8 @@ SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
     if (this == &spatialWeight) return *this;
     if (mWeight) delete mWeight;
     if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
+    mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+    mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     return *this;
 }
 
-- 
2.43.0


From ac784b0947046958991a830f51a23a5a729b732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 08/60] fix: the search for an adaptive bandwidth stays within
 its bounds

---
 src/gwmodelpp/BandwidthSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..b486cc6 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -42,7 +42,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xL = x2;
             x2 = x1;
-            x1 = adaptBw ? round(xL + d) : (xL + d);
+            x1 = adaptBw ? min(round(xL + d), mUpper) : (xL + d);
             f2 = f1;
             w1->setBandwidth(x1);
             s1 = instance->getCriterion(w1, f1);
@@ -53,7 +53,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xU = x1;
             x1 = x2;
-            x2 = adaptBw ? floor(xU - d) : (xU - d);
+            x2 = adaptBw ? max(floor(xU - d), mLower) : (xU - d);
             f1 = f2;
             w2->setBandwidth(x2);
             s2 = instance->getCriterion(w2, f2);
-- 
2.43.0


From 97e8c4f9a2b456e4de4786498c2fe8e97af8c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:31 +0000
Subject: [PATCH 09/60] fix: variable selection ends when no set of variables
 improves by the threshold

---
 src/gwmodelpp/VariableForwardSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..afc9f4a 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -33,7 +33,7 @@ vector<size_t> VariableForwardSelector::optimize(IVarialbeSelectable *instance)
         curIndex.push_back(restIndex[iBestVar]);
         restIndex.erase(restIndex.begin() + iBestVar);
     }
-    if (status == Status::Success)
+    if (status == Status::Success && !modelCriterions.empty())
     {
         mVarsCriterion = sort(modelCriterions);
         return convertIndexToVariables(select(mVarsCriterion).first);
@@ -65,7 +65,7 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From cffca29e5756b1831d976626194f1a880ced41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:43 +0000
Subject: [PATCH 10/60] fix: OpenMP threads do not write one shared row of the
 matrices that are not stored

---
 src/gwmodelpp/GWRBasic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..f7817f0 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -491,8 +491,8 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                mS.row(isStoreS() ? (i - workRange.first) : 0) = si;
-                mC.slice(isStoreC() ? (i - workRange.first) : 0) = ci;
+                if (isStoreS()) mS.row(i - workRange.first) = si;
+                if (isStoreC()) mC.slice(i - workRange.first) = ci;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From a1be12228955c2e4cc5150ddf41d4750d4d5781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:44 +0000
Subject: [PATCH 11/60] fix: criteria under OpenMP reject candidates without a
 local solution, as in serial

---
 src/gwmodelpp/GWRBasic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index f7817f0..4795cbb 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -542,6 +542,10 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("Failed to solve a local model.");
+    }
     return betas.t();
 }
 
@@ -579,6 +583,10 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("Failed to solve a local model.");
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
-- 
2.43.0


From 3b015b9a40cb1ceaa43fe5227736791d22d32e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 12/60] fix: MPI fits work when a process has no location to
 solve

---
 src/gwmodelpp/GWRBasic.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 4795cbb..5b08ab7 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -93,7 +93,7 @@ mat GWRBasic::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         // cout << mWorkerId << " process work range: [" << workRangeFrom << "," << min(workRangeFrom + mWorkRangeSize, nDp) << "]\n";
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
         // cout << mWorkerId << " process work range: [" << mWorkRange.value().first << "," << mWorkRange.value().second << "]\n";
@@ -966,14 +966,14 @@ arma::mat gwm::GWRBasic::fitMpi()
         MPI_Recv(buf.get(), bufSize, MPI_DOUBLE, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &status);
         // printf("0 process received message with %d from %d\n", status.MPI_TAG, status.MPI_SOURCE);
         received(status.MPI_SOURCE, status.MPI_TAG - int(GWRBasicFitMpiTags::Betas)) = 1;
-        uword rangeFrom = status.MPI_SOURCE * mWorkRangeSize, rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
+        uword rangeFrom = min(status.MPI_SOURCE * mWorkRangeSize, nDp), rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
         switch (GWRBasicFitMpiTags(status.MPI_TAG))
         {
         case GWRBasicFitMpiTags::Betas:
-            mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::BetasSE:
-            mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::SHat:
             shat_all.col(status.MPI_SOURCE) = vec(buf.get(), 2);
@@ -1002,8 +1002,12 @@ arma::mat gwm::GWRBasic::fitMpi()
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
     // printf("%d process work range: [%lld, %lld]\n", mWorkerId, workRange.first, workRange.second);
     // cout << mWorkerId << " process work range: [" << workRange.first << "," << workRange.second << "]\n";
-    mat betas = mBetas.cols(workRange.first, workRange.second - 1);
-    mat betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    mat betas, betasSE;
+    if (workRange.first < workRange.second)
+    {
+        betas = mBetas.cols(workRange.first, workRange.second - 1);
+        betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    }
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::Betas), MPI_COMM_WORLD);
     MPI_Send(betasSE.memptr(), betasSE.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::BetasSE), MPI_COMM_WORLD);
     MPI_Send(mSHat.memptr(), mSHat.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::SHat), MPI_COMM_WORLD);
-- 
2.43.0


From bc47ac78a9e5f5dc37d7d07e390e993727768e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 13/60] fix: a serial fit after one with MPI covers all
 locations

---
 src/gwmodelpp/GWRBasic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 5b08ab7..c604fa9 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -1135,6 +1135,7 @@ void GWRBasic::setParallelType(const ParallelType& type)
         {
             mFitFunction = &GWRBasic::fitBase;
             mIndepVarsSelectionCriterionFunction = &GWRBasic::indepVarsSelectionCriterion;
+            mWorkRange = nullopt;
         }
 #endif
         setBandwidthSelectionCriterion(mBandwidthSelectionCriterion);
-- 
2.43.0


From 8104db135976aa72dc6a83924fadeec4505f2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 14/60] fix: MPI processes agree on failure instead of waiting
 for a message forever

---
 src/gwmodelpp/GWRBasic.cpp | 46 ++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index c604fa9..14c8e0d 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -836,6 +836,23 @@ arma::mat GWRBasic::fitCoreSHatCuda(const arma::mat& x, const arma::vec& y, cons
 #endif
 
 #ifdef ENABLE_MPI
+// Run a local calculation; returns on every process whether it succeeded on all of them.
+template<typename F>
+static bool allProcessesSucceed(F calculation)
+{
+    int success = 1;
+    try
+    {
+        calculation();
+    }
+    catch (const exception&)
+    {
+        success = 0;
+    }
+    MPI_Allreduce(MPI_IN_PLACE, &success, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    return success == 1;
+}
+
 double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
 {
     mat x = mX.cols(VariableForwardSelector::index2uvec(indepVars, mHasIntercept));
@@ -844,7 +861,11 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     sw.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
     vec shat;
     double aic;
-    mat betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    mat betas;
+    if (!allProcessesSucceed([&]() { betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat); }))
+    {
+        return DBL_MAX;
+    }
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -874,7 +895,7 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&aic, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return aic;
+    return isfinite(aic) ? aic : DBL_MAX;
 }
 
 double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
@@ -882,7 +903,11 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double cv;
-    mat betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    mat betas;
+    if (!allProcessesSucceed([&]() { betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t(); }))
+    {
+        return DBL_MAX;
+    }
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
     received.row(0).fill(1);
@@ -901,7 +926,7 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicCVMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&cv, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return cv;
+    return isfinite(cv) ? cv : DBL_MAX;
 }
 
 double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
@@ -909,7 +934,11 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double aic;
     vec shat(2, fill::zeros);
-    mat betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    mat betas;
+    if (!allProcessesSucceed([&]() { betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat); }))
+    {
+        return DBL_MAX;
+    }
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -939,14 +968,17 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&aic, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return aic;
+    return isfinite(aic) ? aic : DBL_MAX;
 }
 
 arma::mat gwm::GWRBasic::fitMpi()
 {
     // fit GWR on each process
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
-    mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    if (!allProcessesSucceed([&]() { mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t(); }))
+    {
+        throw std::runtime_error("Failed to solve a local model.");
+    }
     mBetasSE = mBetasSE.t();
     mS = mS.t();
     // gather results to master process
-- 
2.43.0


From 7450e9ed0a82c6f39498d22f2ea98f74a6184b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 15/60] fix: local quantiles do not read before the sorted
 values when the smallest one has a large weight

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..22b350d 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From 859ac447d5a685cafcc187fc5c4cfb59a921d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 16/60] fix: local standard deviations of components use the
 weights of their own location

---
 src/gwmodelpp/GWPCA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..5c422ac 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -20,7 +20,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
 {
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat d_all(nVar, nDp, arma::fill::zeros);
-    vec w0;
+    vec w_all(nDp, arma::fill::zeros);
     loadings = cube(nDp, nVar, mK, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
@@ -29,7 +29,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         mat V;
         vec d;
         wpca(x, w, V, d);
-        w0 = w;
+        w_all(i) = sum(w);
         d_all.col(i) = d;
         for (int j = 0; j < mK; j++)
         {
@@ -38,7 +38,8 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     d_all = trans(d_all);
-    mat variance = (d_all / sqrt(sum(w0))) % (d_all / sqrt(sum(w0)));
+    d_all.each_col() /= sqrt(w_all);
+    mat variance = d_all % d_all;
     sdev = sqrt(variance);
     mat pv = variance.cols(0, mK - 1).each_col() % (1.0 / sum(variance, 1)) * 100.0;
     return pv;
-- 
2.43.0


From 45d84f3dfcc3f916bc3f45c91cfe32d241a6482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 17/60] fix: a robust GWR that was not asked to filter does not
 filter

---
 include/gwmodelpp/GWRRobust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index e22256c..d976aaa 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -128,7 +128,7 @@ protected:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 private:
-    bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
+    bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
     arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
-- 
2.43.0


From 1e4c73f90023371e462b26b26f70c0ebf6f1afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 18/60] fix: GWRRobust::s() returns the hat matrix of the
 robust fit

---
 include/gwmodelpp/GWRRobust.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index d976aaa..fbaf360 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -130,7 +130,6 @@ protected:
 private:
     bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
-    arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
     RegressionHatmatrix mfitFunction = &GWRRobust::fitSerial;   //!< \~english Calculator for fitting \~chinese 拟合函数
-- 
2.43.0


From b034969d26d2a0e4b51c399a434b52c4d7b4a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 19/60] fix: threads of the robust fit do not share a row of
 the hat matrix

---
 src/gwmodelpp/GWRRobust.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..9b87fe8 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -200,7 +200,8 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS())
+                    S.row(i) = si;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From cb3b33028b9b8b60b1502c8df038caa73a6c9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 20/60] fix: bandwidth bounds apply to robust GWR

---
 src/gwmodelpp/GWRRobust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 9b87fe8..41f6eb9 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -62,8 +62,8 @@ mat GWRRobust::fit()
     {
         GWM_LOG_STAGE("Bandwidth selection");
         BandwidthWeight* bw0 = mSpatialWeight.weight<BandwidthWeight>();
-        double lower = bw0->adaptive() ? 20 : 0.0;
-        double upper = bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance();
+        double lower = mGoldenLowerBounds.value_or(bw0->adaptive() ? 20 : 0.0);
+        double upper = mGoldenUpperBounds.value_or(bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance());
         
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
-- 
2.43.0


From b52d50fb6debc0ae56ae16f78b55659bff5acf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 21/60] fix: robust weights of a fit without residuals are ones

---
 src/gwmodelpp/GWRRobust.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 41f6eb9..fa2ffb8 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -305,7 +305,7 @@ mat GWRRobust::robustGWRCaliSecond(const mat &x, const vec &y, mat &betasSE, vec
         residual = y - yHat;
         mse = sum((residual % residual)) / residual.size();
         mWeightMask = filtWeight(residual, mse);
-        diffmse = abs(oldmse - mse) / mse;
+        diffmse = (mse == 0.0) ? 0.0 : abs(oldmse - mse) / mse;
         iter = iter + 1;
     }
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
@@ -337,9 +337,13 @@ void GWRRobust::setParallelType(const ParallelType &type)
 
 vec GWRRobust::filtWeight(vec residual, double mse)
 {
+    vec wvect(residual.size(), fill::ones);
+    if (mse == 0.0)
+    {
+        return wvect;
+    }
     //计算residual
     vec r = abs(residual / sqrt(mse));
-    vec wvect(r.size(), fill::ones);
     //数组赋值
     for (uword i = 0; i < r.size(); i++)
     {
-- 
2.43.0


From e38bcb37b71e0d0a6664fac5644f7348e91bccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 22/60] fix: initial bandwidths of multiscale GWR are refined
 within the extent of the data

---
 src/gwmodelpp/GWRMultiscale.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..ea4cd27 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -197,6 +197,11 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+        {
+            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
+        }
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -204,8 +209,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
 
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
-- 
2.43.0


From cde67a62407db1d9f45ab8dabe0ebb2bb1e7a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 23/60] fix: threads of multiscale GWR report a bandwidth
 without local solution

---
 src/gwmodelpp/GWRMultiscale.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ea4cd27..c790575 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -687,6 +687,7 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
     uword nDp = mCoords.n_rows;
     vec beta(nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -707,10 +708,15 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return beta;
 }
 
@@ -720,6 +726,7 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
     vec betas(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -744,10 +751,15 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From c8c41abd96b8498658ab58697cfa724cbd2f2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 24/60] fix: multiscale GWR reports its AIC

---
 src/gwmodelpp/GWRMultiscale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index c790575..7499451 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -63,12 +63,14 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     double trStS = shat(1);
     double enp = 2 * trS - trStS;
     double edf = nDp - 2 * trS + trStS;
+    double AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     double AICc = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp * ((nDp + trS) / (nDp - 2 - trS));
     double adjustRsquare = 1 - (1 - Rsquare) * (nDp - 1) / (edf - 1);
 
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = AIC;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From 04f4f00bd8fb4d58d7563c8f8eadbd6a60d43d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 25/60] fix: multiscale GWR over MPI keeps negative
 coefficients

---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 7499451..dc05143 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -967,7 +967,7 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
     mat S;
     vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
     vec beta(nDp);
-    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
     {
         mat SArrayi = mSArray.slice(var) - mS0;
@@ -1002,7 +1002,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     GWM_MPI_MASTER_BEGIN
     betas_all = vec(size(betas));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     vec residual = mYi - mXi % betas_all;
     cv = sum(residual % residual);
@@ -1043,7 +1043,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     betas_all = vec(size(betas));
     shat_all = vec(size(shat));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(shat.memptr(), shat_all.memptr(), shat.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     aic = GWRBasic::AICc(mXi, mYi, betas_all, shat_all);
-- 
2.43.0


From afd517712aafc9dedbe5ed14f0b0a97b135b400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 26/60] fix: multiscale GWR over MPI works when a process has
 no location to solve

---
 src/gwmodelpp/GWRMultiscale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index dc05143..8ea2996 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -175,7 +175,7 @@ mat GWRMultiscale::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
     }
 #endif // ENABLE_MPI
@@ -263,7 +263,7 @@ mat GWRMultiscale::fit()
         if (mParallelType & ParallelType::MPI)
         {
             vec shati(2);
-            shati(0) = trace(mS0.cols(workRange.first, workRange.second - 1));
+            shati(0) = (workRange.first < workRange.second) ? trace(mS0.cols(workRange.first, workRange.second - 1)) : 0.0;
             shati(1) = trace(mS0 * mS0.t());
             MPI_Reduce(shati.memptr(), shat.memptr(), 2, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
             MPI_Bcast(shat.memptr(), 2, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-- 
2.43.0


From a54299073451f939ed735da198a192c12efec993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 27/60] fix: processes of multiscale GWR agree on failure

---
 src/gwmodelpp/GWRMultiscale.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 8ea2996..f64473a 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -965,7 +965,21 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
 {
     uword nDp = mXi.n_rows;
     mat S;
-    vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    vec beta_p;
+    int success = 1;
+    try
+    {
+        beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    }
+    catch (const exception& e)
+    {
+        success = 0;
+    }
+    MPI_Allreduce(MPI_IN_PLACE, &success, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+    if (!success)
+    {
+        throw std::runtime_error("Failed to fit a variable on some process");
+    }
     vec beta(nDp);
     MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
-- 
2.43.0


From 76dea40d060987ba6e2c5d7924cc285b67a9362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:07 +0000
Subject: [PATCH 28/60] fix: a serial multiscale fit after one with MPI covers
 all locations

---
 src/gwmodelpp/GWRMultiscale.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index f64473a..ac57aa5 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -1131,6 +1131,7 @@ void GWRMultiscale::setParallelType(const ParallelType &type)
         else
         {
             mFitVar = &GWRMultiscale::fitVarBase;
+            mWorkRange = nullopt;
         }
 #endif // ENABLE_MPI
     }
-- 
2.43.0


From eb8f04cca478b9c61d3c61d8c194716618704630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 29/60] fix: density regression with threads refuses a location
 without unique solution

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..b297832 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -304,6 +304,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From f7fcac78a075a0a2b6deb5d257a7d211fc73e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 30/60] fix: threads of density regression do not share a row
 of the hat matrix

---
 src/gwmodelpp/GWDR.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b297832..e8d272d 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -298,7 +298,8 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
                 onei(i) = 1;
                 mat p = (onei - si).t();
                 qdiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS())
+                    S.row(i) = si;
             }
             catch(const std::exception& e)
             {
-- 
2.43.0


From 0a0db774bbc220ec3641326be3029ef55b81e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 31/60] fix: optimised fixed bandwidths of density regression
 are neither rescaled nor rounded

---
 src/gwmodelpp/GWDR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e8d272d..27a198f 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -786,7 +786,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
     gsl_vector* steps = gsl_vector_alloc(nDim);
     for (size_t m = 0; m < nDim; m++)
     {
-        double target_value = mBandwidths[m]->adaptive() ? mBandwidths[m]->bandwidth() / double(featureCount) : mBandwidths[m]->bandwidth();
+        double target_value = mBandwidths[m]->bandwidth() / double(featureCount);
         gsl_vector_set(targets, m, target_value);
         gsl_vector_set(steps, m, step);
     }
@@ -831,7 +831,8 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             double pbw = abs(gsl_vector_get(minimizer->x, m));
             // pbw = (pbw > 1.0 ? 1.0 : pbw);
-            mBandwidths[m]->setBandwidth(round(pbw * featureCount));
+            double bandwidth = pbw * double(featureCount);
+            mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(bandwidth) : bandwidth);
         }
     }
     gsl_multimin_fminimizer_free(minimizer);
-- 
2.43.0


From 9dc6f4bc012b63a7d4a68a158dcaa117f1ad15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 32/60] fix: space-time regression scores bandwidths by its
 default criterion

---
 include/gwmodelpp/GTWR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GTWR.h b/include/gwmodelpp/GTWR.h
index 519013c..4ecc0c4 100644
--- a/include/gwmodelpp/GTWR.h
+++ b/include/gwmodelpp/GTWR.h
@@ -621,7 +621,7 @@ protected:
     bool mIsAutoselectLambda = false;//!< \~english Whether need lambda autoselect. \~chinese 是否需要自动优选lambda。
 
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionCVSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionAICSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;//!< \~english Bandwidth Selection Criterion List. \~chinese 默认的带宽优选参数列表。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
-- 
2.43.0


From 9e748c307ee8fcd24300e43b379e52df6be8aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:16 +0000
Subject: [PATCH 33/60] fix: threads of space-time regression do not share a
 row of the hat matrix

---
 src/gwmodelpp/GTWR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..24eaf7d 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -350,7 +350,7 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From 452059600c67018786521c82ff2462b962a93c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 34/60] fix: basic regression scores bandwidths by its default
 criterion

---
 include/gwmodelpp/GWRBasic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..01c768a 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -744,7 +744,7 @@ protected:
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether to auto select bandwidth. \~chinese 是否自动优选带宽。
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionCV; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionAIC; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;    //!< \~english Criterion list of each bandwidth. \~chinese 每种带宽组合对应的指标值。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
     std::optional<double> mGoldenUpperBounds;
-- 
2.43.0


From 673b4d6223ff6907e1f04ec50985fb9e78a76734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 35/60] fix: a repeated discriminant analysis uses the current
 variables

---
 src/gwmodelpp/GWDA.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..5508f71 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -35,14 +35,6 @@ void GWDA::run()
     }
     // vec lev = levels(mY);
     mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
-    {
-        mprX = mX;
-    }
-    if (mprY.empty())
-    {
-        mprY = mY;
-    }
     (this->*mDiscriminantAnalysisFunction)();
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
@@ -97,6 +89,7 @@ void GWDA::discriminantAnalysisSerial()
     // uword nVar = mX.n_cols;//nPr = mprX.n_rows;
     vector<string> lev = levels(mY);
     mat wt(nRp, nRp, fill::zeros);
+    mat& xpr = mprX.is_empty() ? mX : mprX;
     for (uword i = 0; i < nRp; i++)
     {
         // vec w=mSpatialWeight.weightVector(i);
@@ -105,11 +98,11 @@ void GWDA::discriminantAnalysisSerial()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, xpr, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, xpr, mHascov, mHasmean, mHasprior);
     }
 }
 
@@ -121,6 +114,7 @@ void GWDA::discriminantAnalysisOmp()
     // uword nVar = mX.n_cols;//nPr = mprX.n_rows;
     vector<string> lev = levels(mY);
     mat wt(nRp, nRp, fill::zeros);
+    mat& xpr = mprX.is_empty() ? mX : mprX;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
     {
@@ -128,11 +122,11 @@ void GWDA::discriminantAnalysisOmp()
     }
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, xpr, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, xpr, mHascov, mHasmean, mHasprior);
     }
 }
 #endif
-- 
2.43.0


From c10ecba5c30397c6c97e1c4cc01a111111af3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 36/60] fix: multithreaded discriminant analysis leaves out the
 observation it classifies

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 5508f71..13065a6 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -120,6 +120,7 @@ void GWDA::discriminantAnalysisOmp()
     {
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, xpr, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From b8fee645d7e9cca45306991f0a110373ae122594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 37/60] fix: quadratic discriminant analysis accepts global
 means, covariances and priors

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 13065a6..42014c6 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -216,10 +216,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From a4ac1b2a7bf1209d57e56001ec3bae1f9d320385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 38/60] fix: probabilities of discriminant analysis agree with
 its classification

---
 src/gwmodelpp/GWDA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 42014c6..1eeb292 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -48,15 +48,16 @@ void GWDA::run()
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
     mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
+    vec best = min(mRes, 1);
+    for (uword i = 0; i < NV; i++)
     {
         vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
+        tmp.col(i) = exp(best - tempi);
     }
     mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / (double)NV;
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From 1ff791256c88411501b251bf028bf9bf69368790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 39/60] fix: traces of the hat matrix do not add up over fits
 of locally compensated ridge regression

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..741c606 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -334,6 +334,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    this->mTrS = 0;
+    this->mTrStS = 0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-- 
2.43.0


From 9686c7d5d1feb4548c326041c42c6a60ac14ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 40/60] fix: threads of locally compensated ridge regression do
 not share counters

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 741c606..6ab4763 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -275,7 +275,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
-    uword current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
@@ -308,7 +307,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
             }
         }
         betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
-        current++;
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -465,8 +463,6 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
         shat_all(0, thread) += hatrow(i);
         shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     vec shat = sum(shat_all,1);
-- 
2.43.0


From db68f80c0db3ecf16b68c0af72e64c47c47bc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 41/60] fix: multithreaded prediction of locally compensated
 ridge regression has one column per variable

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 6ab4763..d05313c 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -473,7 +473,7 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
-- 
2.43.0


From 18d487b54eb16d47b6ecd660559b319ec4de3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 42/60] fix: singular local systems neither abort the process
 nor the bandwidth search of locally compensated ridge regression

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 261 +++++++++++++++----------
 1 file changed, 154 insertions(+), 107 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index d05313c..e4b82c1 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -215,33 +215,41 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
     for (uword i = 0; i < n ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-        vec distvi = mSpatialWeight.distance()->distance(i);
-        vec wgt = bandwidthWeight->weight(distvi);
-        //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
-        wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
-        mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
-        //计算x1w
-        mat x1w = mX % (wgt * wgtspan1);
-        //计算用于SVD分解的矩阵
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            vec distvi = mSpatialWeight.distance()->distance(i);
+            vec wgt = bandwidthWeight->weight(distvi);
+            //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
+            wgt(i) = 0;
+            mat wgtspan(1,mXnot1.n_cols,fill::ones);
+            mat wgtspan1(1,mX.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wgt * wgtspan);
+            //计算x1w
+            mat x1w = mX % (wgt * wgtspan1);
+            //计算用于SVD分解的矩阵
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            return DBL_MAX;
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -275,38 +283,47 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
+    bool success = true;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        //int thread = omp_get_thread_num();
-        vec distvi = mSpatialWeight.distance()->distance(i);
-        vec wgt = bandwidthWeight->weight(distvi);
-        //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
-        wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
-        mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
-        //计算x1w
-        mat x1w = mX % (wgt * wgtspan1);
-        //计算用于SVD分解的矩阵
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            //int thread = omp_get_thread_num();
+            vec distvi = mSpatialWeight.distance()->distance(i);
+            vec wgt = bandwidthWeight->weight(distvi);
+            //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
+            wgt(i) = 0;
+            mat wgtspan(1,mXnot1.n_cols,fill::ones);
+            mat wgtspan1(1,mX.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wgt * wgtspan);
+            //计算x1w
+            mat x1w = mX % (wgt * wgtspan1);
+            //计算用于SVD分解的矩阵
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -315,7 +332,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     vec residual = mY - yhat;
     //计算cv
     double cv = sum(residual % residual);
-    if (mStatus == Status::Success && isfinite(cv))
+    if (mStatus == Status::Success && success && isfinite(cv))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
@@ -425,46 +442,61 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
     vec hatrow(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nDp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        int thread = omp_get_thread_num();
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            int thread = omp_get_thread_num();
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            //如果没有给regressionpoint
+            mat xm = x;
+            mat xtw = trans(x % (wi * wispan1));
+            mat xtwx = xtw * x;
+            mat xtwxinv = inv(xtwx);
+            rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
+            shat_all(0, thread) += hatrow(i);
+            shat_all(1, thread) += sum(hatrow % hatrow);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        //如果没有给regressionpoint
-        mat xm = x;
-        mat xtw = trans(x % (wi * wispan1));
-        mat xtwx = xtw * x;
-        mat xtwxinv = inv(xtwx);
-        rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
-        shat_all(0, thread) += hatrow(i);
-        shat_all(1, thread) += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
@@ -481,37 +513,52 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
 
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
+    bool success = true;
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
-- 
2.43.0


From 373f28257c0021df3cdfa35c2416f0118af893cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 43/60] fix: scalable regression accepts bandwidths up to fifty
 neighbours

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00d1325..d9671e9 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -313,11 +313,11 @@ mat GWRScalable::predict(const mat& locations)
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
@@ -477,11 +477,11 @@ mat GWRScalable::fit()
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
-- 
2.43.0


From da68d5bc6b9c61a41efae1a3c2a6abbbaf0ec7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:07 +0000
Subject: [PATCH 44/60] fix: scalable regression with the exponential kernel
 uses it

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index d9671e9..e2f211a 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -318,7 +318,7 @@ mat GWRScalable::predict(const mat& locations)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -364,7 +364,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(rpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
-        G0 = exp(-pow(rpNNDists / band0, 2));
+        G0 = exp(-rpNNDists / band0);
         break;
     default:
         return mat(nRp, nVar, fill::zeros);
@@ -482,7 +482,7 @@ mat GWRScalable::fit()
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>({50, nBw, mDpNNDists.n_cols}) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -542,7 +542,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(dpNNDists.col(min<uword>(50, bw) - 1)) / 3;
-        mG0 = exp(-pow(dpNNDists / band0, 2));
+        mG0 = exp(-dpNNDists / band0);
         break;
     default:
         return betas.t();
-- 
2.43.0


From acc1e7f988396d8f90d49367d7491001ecfc3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 45/60] fix: generalized regression without the hat matrix is
 fitted

---
 src/gwmodelpp/GWRGeneralized.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..65f4824 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -274,7 +274,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -377,7 +377,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -469,8 +469,8 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                    mBetas.col(i) = gwsi;
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -545,8 +545,8 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                mBetas.col(i) = gwsi;
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From 7658bf40bb6517ff54b55687c25913362f4f957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 46/60] fix: the default family of generalized regression is
 initialised

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index f73cf09..ad9f527 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -414,7 +414,7 @@ private:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 protected:
-    Family mFamily;             //!< \~english Family of the model \~chinese 模型的族
+    Family mFamily = Family::Poisson;             //!< \~english Family of the model \~chinese 模型的族
     double mTol=1e-5;           //!< \~english Tolerance \~chinese 容忍值
     std::size_t mMaxiter=20;    //!< \~english Maximum of iteration \~chinese 最大迭代次数
 
-- 
2.43.0


From 1d497aa744c43e019539285e0b0ef431c545b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 47/60] fix: generalized regression reports and keeps the
 bandwidth criterion it uses by default

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index ad9f527..53a3ac3 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -443,7 +443,7 @@ protected:
     CalWtFunction mCalWtFunction = &GWRGeneralized::PoissonWtSerial;        //!< \~english Calculator for weighting \~chinese 加权函数
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether bandwidth optimization is enabled \~chinese 是否进行带宽优选
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::AIC;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::CV;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
     BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
     BandwidthSelector mBandwidthSizeSelector;   //!< \~english Bandwidth size selector \~chinese 带宽选择器
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
-- 
2.43.0


From 1671cab8fc6e73c15029bbafb850796a2482607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 48/60] fix: multithreaded AICc of generalized regression adds
 the traces of every thread

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 65f4824..5cc52ab 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -750,7 +750,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From dccebb48967258d1df8068aeea5fc0669f8da85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:38 +0000
Subject: [PATCH 49/60] fix: generalized regression returns the bandwidth
 criterions it computed

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 53a3ac3..96c7522 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -499,7 +499,7 @@ inline void GWRGeneralized::setMaxiter(size_t maxiter)
 
 inline BandwidthCriterionList GWRGeneralized::bandwidthSelectorCriterions() const
 {
-    return mBandwidthSizeSelector.bandwidthCriterion();
+    return mBandwidthSelectionCriterionList;
 }
 
 inline bool GWRGeneralized::hasHatMatrix() const
-- 
2.43.0


From b54e6afb9fd6779af9484991d0a397eb28ff565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 50/60] fix: generalized regression predicts at the given
 locations

---
 src/gwmodelpp/GWRGeneralized.cpp | 39 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 5cc52ab..6f7bd67 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -171,12 +171,35 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
-    createPredictionDistanceParameter(locations);
+    uword nDp = mCoords.n_rows, nVars = mX.n_cols, nRp = locations.n_rows;
+    createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
+    mWtMat1 = mat(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        mWtMat1.col(i) = mSpatialWeight.weightVector(i);
+    }
+    createPredictionDistanceParameter(locations);
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        mWtMat2.col(i) = mSpatialWeight.weightVector(i);
+    }
+
+    // 预测时不计算帽子矩阵
+    bool hasHatMatrix = mHasHatMatrix;
+    mHasHatMatrix = false;
+    try
+    {
+        mBetas = trans((this->*mGGWRfitFunction)(mX, mY));
+    }
+    catch (...)
+    {
+        mHasHatMatrix = hasHatMatrix;
+        throw;
+    }
+    mHasHatMatrix = hasHatMatrix;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
 
     return mBetas;
@@ -209,7 +232,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
 } */
 mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -296,7 +319,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 #ifdef ENABLE_OPENMP
 mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -403,7 +426,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 {
     uword nVar = x.n_cols;
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
     mat betas = mat(nVar, nRp, fill::zeros);
@@ -493,7 +516,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 
 mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
-- 
2.43.0


From f0c80bf0d3c7eda9c1a41cc015d0f634c25a7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 51/60] fix: a bandwidth that makes a local system singular
 neither ends the process nor the search of generalized regression

---
 include/gwmodelpp/GWRGeneralized.h |  9 +++++-
 src/gwmodelpp/GWRGeneralized.cpp   | 46 +++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 96c7522..2b545b8 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -128,7 +128,14 @@ public:
 public: // IBandwidthSizeSelectable interface
     Status getCriterion(BandwidthWeight *bandwidthWeight, double& criterion) override
     {
-        criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        try
+        {
+            criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        }
+        catch (const std::exception& e)
+        {
+            criterion = DBL_MAX;
+        }
         return mStatus;
     }
 
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 6f7bd67..18a9d26 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -640,6 +640,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     uword n = mCoords.n_rows;
     vec cv = vec(n);
     mat wt = mat(n, n);
+    bool success = true;
     //int current1 = 0, current2 = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
@@ -664,16 +665,24 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (true)
         {
-            mat wi = wt.col(i) % mWt2;
-            vec gwsi = gwPredict(mX, myAdj, wi);
-            mat yhatnoi = mX.row(i) * gwsi;
-            if (mFamily == GWRGeneralized::Family::Poisson)
+            try
             {
-                cv.row(i) = mY.row(i) - exp(yhatnoi);
+                mat wi = wt.col(i) % mWt2;
+                vec gwsi = gwPredict(mX, myAdj, wi);
+                mat yhatnoi = mX.row(i) * gwsi;
+                if (mFamily == GWRGeneralized::Family::Poisson)
+                {
+                    cv.row(i) = mY.row(i) - exp(yhatnoi);
+                }
+                else
+                {
+                    cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+                }
             }
-            else
+            catch (const exception& e)
             {
-                cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+                GWM_LOG_ERROR(e.what());
+                success = false;
             }
         }
     }
@@ -681,7 +690,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
 
     vec cvsquare = trans(cv) * cv;
     double res = sum(cvsquare);
-    if (mStatus == Status::Success && isfinite(res))
+    if (mStatus == Status::Success && success && isfinite(res))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - res)));
         mBandwidthLastCriterion = res;
@@ -738,6 +747,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     vec cv = vec(n);
     mat S = mat(n, n);
     mat wt = mat(n, n);
+    bool success = true;
     //int current1 = 0, current2 = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
@@ -762,16 +772,24 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (true)
         {
-            int thread = omp_get_thread_num();
-            vec wi = wt.col(i) % mWt2;
-            mat Ci = CiMat(mX, wi);
-            S.row(i) = mX.row(i) * Ci;
-            trS(thread) += S(i, i);
+            try
+            {
+                int thread = omp_get_thread_num();
+                vec wi = wt.col(i) % mWt2;
+                mat Ci = CiMat(mX, wi);
+                S.row(i) = mX.row(i) * Ci;
+                trS(thread) += S(i, i);
+            }
+            catch (const exception& e)
+            {
+                GWM_LOG_ERROR(e.what());
+                success = false;
+            }
         }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-    if (mStatus == Status::Success && S.is_finite())
+    if (mStatus == Status::Success && success && S.is_finite())
     {
         double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
-- 
2.43.0


From 7f4c7e1c6cce0cbe13cb6736e6e5f4464cde5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 52/60] fix: the AIC of the generalized linear model counts
 coefficients instead of observations

---
 src/gwmodelpp/GeneralizedLinearModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GeneralizedLinearModel.cpp b/src/gwmodelpp/GeneralizedLinearModel.cpp
index e49492d..48fce78 100644
--- a/src/gwmodelpp/GeneralizedLinearModel.cpp
+++ b/src/gwmodelpp/GeneralizedLinearModel.cpp
@@ -102,7 +102,7 @@ void GeneralizedLinearModel::fit(){
     }
     vec nulldevtemp = mModel->devResids(mY,wtdmu1,mWeight);
     mNullDev = sum(nulldevtemp);
-    uword rank = empty? 0 : mX.n_rows;
+    uword rank = empty? 0 : mX.n_cols;
     mAIC = mModel->aic(mY,n,mu,mWeight) + 2.0 * rank;
 }
 
-- 
2.43.0


From c81e2821c4478416c48ac74b5ce5042d920bf125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 53/60] fix: the AICc of the global generalized model is not
 computed in unsigned integers

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 18a9d26..3d57301 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -217,7 +217,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
     double dev = mGlm.dev();
     double pseudor2 = 1 - dev / nulldev;
     double aic = dev + 2 * nVar;
-    double aicc = aic + 2 * nVar * (nVar + 1) / (nDp - nVar - 1);
+    double aicc = aic + 2.0 * nVar * (nVar + 1) / ((double)nDp - nVar - 1);
     vec vGLMDiags(5);
     vGLMDiags(0) = aic;
     vGLMDiags(1) = aicc;
-- 
2.43.0


From 52563c410f776439b7fd89c9f4545f601f9ae083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:19 +0000
Subject: [PATCH 54/60] fix: a run after a cancelled one starts with a fresh
 status

---
 src/gwmodelpp/GTWR.cpp                 | 2 ++
 src/gwmodelpp/GWDR.cpp                 | 1 +
 src/gwmodelpp/GWPCA.cpp                | 1 +
 src/gwmodelpp/GWRBasic.cpp             | 2 ++
 src/gwmodelpp/GWRGeneralized.cpp       | 2 ++
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 src/gwmodelpp/GWRMultiscale.cpp        | 1 +
 src/gwmodelpp/GWRRobust.cpp            | 2 ++
 src/gwmodelpp/GWRScalable.cpp          | 2 ++
 src/gwmodelpp/GWSS.cpp                 | 1 +
 10 files changed, 16 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 24eaf7d..d730f05 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -28,6 +28,7 @@ RegressionDiagnostic GTWR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GTWR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing")
     createDistanceParameter();
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
@@ -91,6 +92,7 @@ mat GTWR::fit()
 
 mat GTWR::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createPredictionDistanceParameter(locations);
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
     return mBetas;
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 27a198f..9e0b0c0 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -31,6 +31,7 @@ RegressionDiagnostic GWDR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GWDR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDims = mCoords.n_cols, nDp = mCoords.n_rows, nVars = mX.n_cols;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 5c422ac..22fb084 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -5,6 +5,7 @@ using namespace gwm;
 
 void GWPCA::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, void());
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 14c8e0d..b3f9b59 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -61,6 +61,7 @@ RegressionDiagnostic GWRBasic::CalcDiagnostic(const mat& x, const vec& y, const
 
 mat GWRBasic::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
 #ifdef ENABLE_MPI
@@ -171,6 +172,7 @@ mat GWRBasic::fit()
 
 mat GWRBasic::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 3d57301..de0d6b5 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -19,6 +19,7 @@ using namespace gwm;
 
 mat GWRGeneralized::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     // 初始化
     // setXY(mX, mY, mSourceLayer, mDepVar, mIndepVars);
@@ -171,6 +172,7 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVars = mX.n_cols, nRp = locations.n_rows;
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index e4b82c1..cd586eb 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -38,6 +38,7 @@ GWRLocalCollinearity::~GWRLocalCollinearity()
 
 mat GWRLocalCollinearity::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -99,6 +100,7 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ac57aa5..48dd080 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -81,6 +81,7 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
 
 mat GWRMultiscale::fit()
 {
+    mStatus = Status::Success;
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     // ********************************
     // Centering and scaling predictors
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index fa2ffb8..5df084c 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -29,6 +29,7 @@ RegressionDiagnostic GWRRobust::CalcDiagnostic(const mat &x, const vec &y, const
 
 mat GWRRobust::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -106,6 +107,7 @@ mat GWRRobust::fit()
 
 mat GWRRobust::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     size_t nDp = locations.n_rows, nVar = mX.n_cols;
 
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index e2f211a..2a68a5e 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -299,6 +299,7 @@ void GWRScalable::prepare()
 
 mat GWRScalable::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
@@ -462,6 +463,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
 
 mat GWRScalable::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 22b350d..464a65e 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -58,6 +58,7 @@ bool GWSS::isValid()
 
 void GWSS::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nRp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
-- 
2.43.0


From db879ede2731d278b3f2c88558f6174e929a8fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 55/60] fix: scalable regression looks for its neighbours with
 the bandwidth it uses

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 2a68a5e..a7b5073 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -301,8 +301,6 @@ mat GWRScalable::predict(const mat& locations)
 {
     mStatus = Status::Success;
     createDistanceParameter();
-    mDpSpatialWeight = mSpatialWeight;
-    findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_rows, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
@@ -310,6 +308,8 @@ mat GWRScalable::predict(const mat& locations)
         nBw = nDp - 1;
         bandwidth->setBandwidth((double)nBw);
     }
+    mDpSpatialWeight = mSpatialWeight;
+    findDataPointNeighbours();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
@@ -466,8 +466,6 @@ mat GWRScalable::fit()
     mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
-    mDpSpatialWeight = mSpatialWeight;
-    findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     arma::uword nDp = mX.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
@@ -475,6 +473,8 @@ mat GWRScalable::fit()
         nBw = nDp - 1;
         bandwidth->setBandwidth((double)nBw);
     }
+    mDpSpatialWeight = mSpatialWeight;
+    findDataPointNeighbours();
     double band0 = 0.0;
     switch (bandwidth->kernel())
     {
-- 
2.43.0


From 0186928cf0a7fb504deb30167de0f77f4b12a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 56/60] fix: multiscale regression keeps the configured kind of
 initial bandwidths

---
 src/gwmodelpp/GWRMultiscale.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 48dd080..83ca5ce 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -308,6 +308,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
     // ***********************************************************
     GWM_LOG_MGWR_BACKFITTING("Selecting the optimum bandwidths for each independent variable");
     uvec bwChangeNo(nVar, fill::zeros);
+    vector<BandwidthInitilizeType> bandwidthInitilize = mBandwidthInitilize;
     vec resid = mY - Fitted(mX, betas);
     double RSS0 = sum(resid % resid), RSS1 = DBL_MAX;
     double criterion = DBL_MAX;
@@ -321,7 +322,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
             mXi = mX.col(i);
             vec fi = betas.col(i) % mX.col(i);
             mYi = resid + fi;
-            if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+            if (bandwidthInitilize[i] != BandwidthInitilizeType::Specified)
             {
                 GWM_LOG_MGWR_BACKFITTING("#variable-bandwidth-selection " + to_string(i));
                 mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -351,7 +352,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
                     bwChangeNo(i) += 1;
                     if (bwChangeNo(i) >= mBandwidthSelectRetryTimes)
                     {
-                        mBandwidthInitilize[i] = BandwidthInitilizeType::Specified;
+                        bandwidthInitilize[i] = BandwidthInitilizeType::Specified;
                         vbs_args.push_back("true");
                     }
                     else
-- 
2.43.0


From 71be0488afc43d0168f05d82af3eb8ac2aab9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 57/60] fix: density regression's optimiser gives adaptive
 bandwidths below one neighbour the worst score

---
 src/gwmodelpp/GWDR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 9e0b0c0..595ed8d 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -775,6 +775,8 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     {
         double pbw = abs(gsl_vector_get(bws, m));
         bandwidths[m]->setBandwidth(pbw * nFeature);
+        // An adaptive bandwidth must cover at least one observation.
+        if (bandwidths[m]->adaptive() && bandwidths[m]->bandwidth() < 1.0) return DBL_MAX;
     }
     return instance->bandwidthCriterion(bandwidths);
 }
-- 
2.43.0


From c30b532256fac3a157e40c53baf90c93d2fa61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 58/60] fix: generalized regression reports its progress within
 the total

---
 src/gwmodelpp/GWRGeneralized.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index de0d6b5..181a750 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -308,7 +308,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
                 except=e;
                 isAllCorrect = false;
             }
-            GWM_LOG_PROGRESS(i + 1, nDp);
+            GWM_LOG_PROGRESS(i + 1, nRp);
         }
     }
     if (!isAllCorrect)
@@ -414,7 +414,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                     // emit error(e.what());
                 }
             }
-            GWM_LOG_PROGRESS(i + 1, nDp);
+            GWM_LOG_PROGRESS(i + 1, nRp);
         }
     }
     if(!isAllCorrect){
@@ -506,7 +506,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                     // emit error(e.what());
                 }
             }
-            GWM_LOG_PROGRESS(i + 1, nDp)
+            GWM_LOG_PROGRESS(i + 1, nRp)
         }
     }
     if(!isAllCorrect){
@@ -835,7 +835,7 @@ vec GWRGeneralized::PoissonWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = mu;
@@ -876,7 +876,7 @@ vec GWRGeneralized::PoissonWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = mu;
@@ -920,7 +920,7 @@ vec GWRGeneralized::BinomialWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
@@ -963,7 +963,7 @@ vec GWRGeneralized::BinomialWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
-- 
2.43.0


From ace2cf3cbd25cbb473f710af4080f1999b59d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 59/60] fix: scalable regression's search reports no more than
 all of its progress

---
 src/gwmodelpp/GWRScalable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index a7b5073..4857de3 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -240,7 +240,7 @@ double GWRScalable::optimize(const mat &Mx0, const mat &My0, double& b_tilde, do
             b_tilde = gsl_vector_get(minizer->x, 0);
             alpha = gsl_vector_get(minizer->x, 1);
             cv = minizer->fval;
-            GWM_LOG_PROGRESS_PERCENT(exp(- (size - 1e-6)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(size - 1e-6)));
         }
         while (status == GSL_CONTINUE && iter < mMaxIter);
         b_tilde = gsl_vector_get(minizer->x, 0);
-- 
2.43.0


From fe2a63633b9a999daa7d5b26510a5bb8e8180959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 60/60] fix: density regression's bandwidth search ends when it
 is cancelled

---
 src/gwmodelpp/GWDR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 595ed8d..5b1ec0f 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -803,9 +803,9 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         do
         {
             iter++;
-            status = gsl_multimin_fminimizer_iterate(minimizer);
-            if (status && instance->status() != Status::Success)
+            if (instance->status() != Status::Success)
                 break;
+            status = gsl_multimin_fminimizer_iterate(minimizer);
             size = gsl_multimin_fminimizer_size(minimizer);
             status = gsl_multimin_test_size(size, eps);
             #ifdef _DEBUG
-- 
2.43.0

