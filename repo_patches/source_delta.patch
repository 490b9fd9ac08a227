From 065fc0ae8b7b800e1bf55ccb6f958f39f4914725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 001/148] fix: DataArrayInt32.explodeComponents wraps its
 results with their own type

---
 src/MEDCoupling_Swig/DataArrayInt.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling_Swig/DataArrayInt.i b/src/MEDCoupling_Swig/DataArrayInt.i
index 7622be2..c8a009f 100644
--- a/src/MEDCoupling_Swig/DataArrayInt.i
+++ b/src/MEDCoupling_Swig/DataArrayInt.i
@@ -672,7 +672,7 @@
         std::size_t sz(retCpp.size());
         PyObject *res(PyList_New(sz));
         for(std::size_t i=0;i<sz;i++)
-          PyList_SetItem(res,i,SWIG_NewPointerObj(SWIG_as_voidptr(retCpp[i].retn()),SWIGTITraits<mcIdType>::TI, SWIG_POINTER_OWN | 0 ));
+          PyList_SetItem(res,i,SWIG_NewPointerObj(SWIG_as_voidptr(retCpp[i].retn()),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 ));
         return res;
       }
 
-- 
2.43.0


From 30583743a1b19fef203df0bc408cfe7841a50d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 002/148] fix: declare the id-array results of DataArrayInt32
 with their real type

---
 src/MEDCoupling_Swig/DataArrayInt.i | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling_Swig/DataArrayInt.i b/src/MEDCoupling_Swig/DataArrayInt.i
index c8a009f..8155398 100644
--- a/src/MEDCoupling_Swig/DataArrayInt.i
+++ b/src/MEDCoupling_Swig/DataArrayInt.i
@@ -60,9 +60,9 @@
     std::string repr() const;
     std::string reprZip() const;
     std::string reprNotTooLong() const;
-    ARRAY *invertArrayO2N2N2O(mcIdType newNbOfElem) const;
-    ARRAY *invertArrayN2O2O2N(mcIdType oldNbOfElem) const;
-    ARRAY *invertArrayO2N2N2OBis(mcIdType newNbOfElem) const;
+    DataArrayIdType *invertArrayO2N2N2O(mcIdType newNbOfElem) const;
+    DataArrayIdType *invertArrayN2O2O2N(mcIdType oldNbOfElem) const;
+    DataArrayIdType *invertArrayO2N2N2OBis(mcIdType newNbOfElem) const;
     DataArrayIdType *indicesOfSubPart(const ARRAY& partOfThis) const;
     ARRAY *fromNoInterlace() const;
     ARRAY *toNoInterlace() const;
@@ -119,9 +119,9 @@
     void applyRModulus(INT val);
     void applyPow(INT val);
     void applyRPow(INT val);
-    ARRAY *findIdsInRange(INT vmin, INT vmax) const;
-    ARRAY *findIdsNotInRange(INT vmin, INT vmax) const;
-    ARRAY *findIdsStrictlyNegative() const;
+    DataArrayIdType *findIdsInRange(INT vmin, INT vmax) const;
+    DataArrayIdType *findIdsNotInRange(INT vmin, INT vmax) const;
+    DataArrayIdType *findIdsStrictlyNegative() const;
     bool checkAllIdsInRange(INT vmin, INT vmax) const;
     static ARRAY *Aggregate(const ARRAY *a1, const ARRAY *a2, INT offsetA2);
     static ARRAY *Meld(const ARRAY *a1, const ARRAY *a2);
-- 
2.43.0


From 48f842b964b21821d84d2c77dff56e270cbbad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 003/148] fix: buildUniqueNotSorted no longer overflows on
 widely spread values

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 1a60caa..a690030 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -41,6 +41,7 @@
 #include <utility>
 #include <list>
 #include <unordered_map>
+#include <unordered_set>
 
 namespace MEDCoupling
 {
@@ -6653,19 +6654,14 @@ DataArrayDiscrete<T>::buildUniqueNotSorted() const
     this->checkAllocated();
     if (this->getNumberOfComponents() != 1)
         throw INTERP_KERNEL::Exception("DataArrayInt::buildUniqueNotSorted : only single component allowed !");
-    T minVal, maxVal;
-    this->getMinMaxValues(minVal, maxVal);
-    std::vector<bool> b(maxVal - minVal + 1, false);
+    std::unordered_set<T> alreadySeen;
     const T *ptBg(this->begin()), *endBg(this->end());
     MCAuto<DataArrayType> ret(DataArrayType::New());
     ret->alloc(0, 1);
     for (const T *pt = ptBg; pt != endBg; pt++)
     {
-        if (!b[*pt - minVal])
-        {
+        if (alreadySeen.insert(*pt).second)
             ret->pushBackSilent(*pt);
-            b[*pt - minVal] = true;
-        }
     }
     ret->copyStringInfoFrom(*this);
     return ret.retn();
-- 
2.43.0


From 6b24ba76bdeb00b949fcb2eaf740cc803446b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 004/148] fix: MakePartition gives family 0 to the elements
 that are in no group

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index a690030..bb74275 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -9487,6 +9487,8 @@ DataArrayDiscrete<T>::MakePartition(
 
     std::unordered_map<std::vector<uint64_t>, mcIdType, VecHash> partitionMap;
     partitionMap.reserve(N);
+    // family 0 is dedicated to the elements that are in none of the groups
+    partitionMap.emplace(std::vector<uint64_t>(WORDS, 0ULL), 0);
 
     mcIdType nextPartitionId(1);
 
-- 
2.43.0


From 48faf1e5be73b7670a31f162df2d8dabf67ed709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 005/148] fix: fromListOfPairsToIndexArray merges every group
 linked by a pair

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index bb74275..dbec273 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -7655,19 +7655,15 @@ DataArrayDiscrete<T>::fromListOfPairsToIndexArray(
         typename std::map<T, std::set<T>>::iterator it(workStruct.begin());
         while (it != workStruct.end())
         {
-            bool mergeRequested(false);
-            T groupToMerge(std::numeric_limits<T>::max());
+            // all the already visited groups sharing at least one element with current group
+            std::set<T> groupsToMerge;
             for (typename std::set<T>::iterator it2 = it->second.begin(); it2 != it->second.end(); ++it2)
             {
                 auto it3 = zeMap.find(*it2);
                 if (it3 != zeMap.end())
-                {
-                    mergeRequested = true;
-                    groupToMerge = it3->second;
-                    break;
-                }
+                    groupsToMerge.insert(it3->second);
             }
-            if (!mergeRequested)
+            if (groupsToMerge.empty())
             {
                 for (typename std::set<T>::iterator it2 = it->second.begin(); it2 != it->second.end(); ++it2)
                     zeMap[*it2] = it->first;
@@ -7675,10 +7671,16 @@ DataArrayDiscrete<T>::fromListOfPairsToIndexArray(
             }
             else
             {
-                auto it3 = workStruct.find(groupToMerge);
-                (*it3).second.insert(it->second.begin(), it->second.end());
-                for (typename std::set<T>::iterator it2 = it->second.begin(); it2 != it->second.end(); ++it2)
-                    zeMap[*it2] = groupToMerge;
+                const T target(*groupsToMerge.begin());
+                std::set<T> &targetGroup(workStruct[target]);
+                targetGroup.insert(it->second.begin(), it->second.end());
+                for (auto grp = std::next(groupsToMerge.begin()); grp != groupsToMerge.end(); ++grp)
+                {
+                    auto it3 = workStruct.find(*grp);
+                    targetGroup.insert(it3->second.begin(), it3->second.end());
+                    workStruct.erase(it3);
+                }
+                for (const T &elt : targetGroup) zeMap[elt] = target;
                 it = workStruct.erase(it);
             }
         }
-- 
2.43.0


From e507da7066949c99541901a91ac96d9861f4a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 006/148] fix: deleteSimplePack accepts an empty pack

---
 src/MEDCoupling/MEDCouplingSkyLineArray.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
index ad09a81..1ba4e0a 100644
--- a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
+++ b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
@@ -656,7 +656,7 @@ MEDCouplingSkyLineArray::deleteSimplePack(const mcIdType idx)
         std::copy(vP + end, vP + initValSz, vP + start);
         _values->reAlloc(initValSz + deltaSz);
     }
-    else
+    else if (deltaSz > 0)  // 0 is a valid empty pack
         throw INTERP_KERNEL::Exception("MEDCouplingSkyLineArray::deleteSimplePack");
     // _index
     mcIdType nt = _index->getNbOfElems();
-- 
2.43.0


From 3a9bbd3548e83699f0f4039949d1931dffebd864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 007/148] fix: replaceSimplePacks keeps the order and
 repetitions of every pack

---
 src/MEDCoupling/MEDCouplingSkyLineArray.cxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
index 1ba4e0a..f110434 100644
--- a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
+++ b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
@@ -678,24 +678,24 @@ MEDCouplingSkyLineArray::replaceSimplePacks(
     if (idx->getNbOfElems() != ToIdType(packs.size()))
         throw INTERP_KERNEL::Exception("MEDCouplingSkyLineArray::deleteSimplePacks: size of list of pack is incorrect");
 
-    // copy _index, _values into a deque<set<mcIdType>>
-    std::deque<std::set<mcIdType> > valuesByIdx;
+    // copy _index, _values into a deque<vector<mcIdType>>
+    std::deque<std::vector<mcIdType> > valuesByIdx;
     mcIdType *vP(_values->getPointer());
     mcIdType *iP(_index->getPointer());
     mcIdType nt = _index->getNbOfElems();
-    for (mcIdType ii = 0; ii < nt - 1; ii++) valuesByIdx.push_back(std::set<mcIdType>(vP + iP[ii], vP + iP[ii + 1]));
+    for (mcIdType ii = 0; ii < nt - 1; ii++) valuesByIdx.push_back(std::vector<mcIdType>(vP + iP[ii], vP + iP[ii + 1]));
 
-    // modify the deque<set<mcIdType>> according to idx and packs
+    // modify the deque<vector<mcIdType>> according to idx and packs
     mcIdType ii(0);
     for (const mcIdType *id = idx->begin(); id != idx->end(); id++)
     {
-        valuesByIdx[*id] = std::set<mcIdType>(packs[ii]->begin(), packs[ii]->end());
+        valuesByIdx[*id] = std::vector<mcIdType>(packs[ii]->begin(), packs[ii]->end());
         ii++;
     }
-    // copy back the deque<set<mcIdType>> into _index, _values
+    // copy back the deque<vector<mcIdType>> into _index, _values
     mcIdType valSz(0);
     *iP = 0;
-    for (std::deque<std::set<mcIdType> >::const_iterator values = valuesByIdx.begin(); values != valuesByIdx.end();
+    for (std::deque<std::vector<mcIdType> >::const_iterator values = valuesByIdx.begin(); values != valuesByIdx.end();
          values++)
     {
         valSz += ToIdType((*values).size());
-- 
2.43.0


From 06527be9b2077aeeb41fa494659c57be6e9d13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 008/148] fix: a slice part definition with a negative step
 counts its elements

---
 src/MEDCoupling/MEDCouplingPartDefinition.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingPartDefinition.cxx b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
index c3f2efd..0cc1e3a 100644
--- a/src/MEDCoupling/MEDCouplingPartDefinition.cxx
+++ b/src/MEDCoupling/MEDCouplingPartDefinition.cxx
@@ -329,7 +329,7 @@ SlicePartDefinition::toDAI() const
 mcIdType
 SlicePartDefinition::getNumberOfElems() const
 {
-    return DataArray::GetNumberOfItemGivenBES(_start, _stop, _step, "SlicePartDefinition::getNumberOfElems");
+    return DataArray::GetNumberOfItemGivenBESRelative(_start, _stop, _step, "SlicePartDefinition::getNumberOfElems");
 }
 
 PartDefinition *
@@ -404,7 +404,7 @@ SlicePartDefinition::getRepr() const
 mcIdType
 SlicePartDefinition::getEffectiveStop() const
 {
-    mcIdType nbElems(DataArray::GetNumberOfItemGivenBES(_start, _stop, _step, "SlicePartDefinition::getEffectiveStop"));
+    mcIdType nbElems(DataArray::GetNumberOfItemGivenBESRelative(_start, _stop, _step, "SlicePartDefinition::getEffectiveStop"));
     return _start + nbElems * _step;
 }
 
-- 
2.43.0


From 07f22e5076475575ae8cad8f7fb3df509fb5ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 009/148] fix: eigenVectors finds the eigenvectors orthogonal
 to (1,1,1) and those needing the first and last rows

---
 src/INTERP_KERNEL/GenMathFormulae.hxx | 74 ++++++++++-----------------
 1 file changed, 28 insertions(+), 46 deletions(-)

diff --git a/src/INTERP_KERNEL/GenMathFormulae.hxx b/src/INTERP_KERNEL/GenMathFormulae.hxx
index 5c4e3d8..b1cb19f 100644
--- a/src/INTERP_KERNEL/GenMathFormulae.hxx
+++ b/src/INTERP_KERNEL/GenMathFormulae.hxx
@@ -23,6 +23,7 @@
 
 #include "InterpKernelException.hxx"
 
+#include <algorithm>
 #include <cmath>
 
 namespace INTERP_KERNEL
@@ -70,56 +71,37 @@ computeEigenValues6(const double *matrix, double *eigenVals)
 void
 computeEigenVectorForEigenValue6(const double *matrix, double eigenVal, double eps, double *eigenVector)
 {
-    // if(fabs(eigenVal)>eps)
+    const double m9[9] = {
+        matrix[0] - eigenVal,
+        matrix[3],
+        matrix[5],
+        matrix[3],
+        matrix[1] - eigenVal,
+        matrix[4],
+        matrix[5],
+        matrix[4],
+        matrix[2] - eigenVal
+    };
+    // the eigenvector is orthogonal to every row : take the best conditioned cross product of 2 rows
+    double scale = 0., best = 0.;
+    for (int i = 0; i < 9; i++) scale = std::max(scale, fabs(m9[i]));
+    eigenVector[0] = 0.;
+    eigenVector[1] = 0.;
+    eigenVector[2] = 0.;
+    for (int i = 0; i < 3; i++)
     {
-        const double m9[9] = {
-            matrix[0] - eigenVal,
-            matrix[3],
-            matrix[5],
-            matrix[3],
-            matrix[1] - eigenVal,
-            matrix[4],
-            matrix[5],
-            matrix[4],
-            matrix[2] - eigenVal
-        };
-        for (int i = 0; i < 3; i++)
+        const double *u = m9 + 3 * i, *v = m9 + 3 * ((i + 1) % 3);
+        double w[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
+        double norm = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
+        if (norm > eps * scale * scale && norm > best)
         {
-            double w[9] = {
-                m9[0 + 3 * i],
-                m9[1 + 3 * i],
-                m9[2 + 3 * i],
-                m9[0 + (3 * (i + 1)) % 6],
-                m9[1 + (3 * (i + 1)) % 6],
-                m9[2 + (3 * (i + 1)) % 6],
-                1.,
-                1.,
-                1.
-            };
-            double det = w[0] * w[4] * w[8] + w[1] * w[5] * w[6] + w[2] * w[3] * w[7] - w[0] * w[5] * w[7] -
-                         w[1] * w[3] * w[8] - w[2] * w[4] * w[6];
-            if (fabs(det) > eps)
-            {
-                eigenVector[0] = (w[1] * w[5] - w[4] * w[2]) / det;
-                eigenVector[1] = (w[2] * w[3] - w[0] * w[5]) / det;
-                eigenVector[2] = (w[0] * w[4] - w[1] * w[3]) / det;
-                double norm = sqrt(
-                    eigenVector[0] * eigenVector[0] + eigenVector[1] * eigenVector[1] + eigenVector[2] * eigenVector[2]
-                );
-                eigenVector[0] /= norm;
-                eigenVector[1] /= norm;
-                eigenVector[2] /= norm;
-                return;
-            }
+            best = norm;
+            // direction chosen so that the sum of the components is positive
+            if (w[0] + w[1] + w[2] < 0.)
+                norm = -norm;
+            for (int j = 0; j < 3; j++) eigenVector[j] = w[j] / norm;
         }
     }
-    // else
-    {
-        eigenVector[0] = 0.;
-        eigenVector[1] = 0.;
-        eigenVector[2] = 0.;
-        return;
-    }
     // throw INTERP_KERNEL::Exception("computeEigenVector : Do not succed in finding eigen vector !");
 }
 }  // namespace INTERP_KERNEL
-- 
2.43.0


From c99d8c35ed85c4de6b66f73e3e3348f0f5095cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 010/148] fix: eigenValues of a tensor with a double largest
 eigenvalue whatever the rounding

---
 src/INTERP_KERNEL/GenMathFormulae.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/INTERP_KERNEL/GenMathFormulae.hxx b/src/INTERP_KERNEL/GenMathFormulae.hxx
index b1cb19f..2c03723 100644
--- a/src/INTERP_KERNEL/GenMathFormulae.hxx
+++ b/src/INTERP_KERNEL/GenMathFormulae.hxx
@@ -53,8 +53,8 @@ computeEigenValues6(const double *matrix, double *eigenVals)
             phi = 1. / 3. * acos(q / tmp);
         else  // EDF22176
             phi = 1. / 3.;
-    else
-        phi = 0.;
+    else  // |q| exceeds |tmp| by rounding only
+        phi = q > 0. ? 0. : M_PI / 3.;
     if (phi < 0.)
         phi += M_PI / 3.;
     eigenVals[0] = tr + 2. * sqp * cos(phi);
-- 
2.43.0


From 36c4f3db3d64a989fa8ec0909489ba2610b9c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:13 +0000
Subject: [PATCH 011/148] fix: DataArrayInt modulusEqual accepts a
 one-component divisor and checks a one-tuple divisor

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index dbec273..16b37c3 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -7831,25 +7831,20 @@ DataArrayDiscrete<T>::modulusEqual(const DataArrayType *other)
         }
         else if (nbOfComp2 == 1)
         {
-            if (nbOfComp2 == nbOfComp)
-            {
-                T *ptr = this->getPointer();
-                const T *ptrc = other->getConstPointer();
-                for (mcIdType i = 0; i < nbOfTuple; i++)
-                    std::transform(
-                        ptr + i * nbOfComp,
-                        ptr + (i + 1) * nbOfComp,
-                        ptr + i * nbOfComp,
-                        std::bind(std::modulus<T>(), std::placeholders::_1, *ptrc++)
-                    );
-            }
-            else
-                throw INTERP_KERNEL::Exception(msg);
+            T *ptr = this->getPointer();
+            const T *ptrc = other->getConstPointer();
+            for (mcIdType i = 0; i < nbOfTuple; i++)
+                std::transform(
+                    ptr + i * nbOfComp,
+                    ptr + (i + 1) * nbOfComp,
+                    ptr + i * nbOfComp,
+                    std::bind(std::modulus<T>(), std::placeholders::_1, *ptrc++)
+                );
         }
         else
             throw INTERP_KERNEL::Exception(msg);
     }
-    else if (nbOfTuple2 == 1)
+    else if (nbOfTuple2 == 1 && nbOfComp2 == nbOfComp)
     {
         T *ptr = this->getPointer();
         const T *ptrc = other->getConstPointer();
-- 
2.43.0


From 9a7754b7e617fe761e466e3de8187bca6c54f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 012/148] fix: explodeMeshIntoMicroEdges works on 3D meshes

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 0d7e9ad..10e2129 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -956,7 +956,7 @@ MEDCouplingUMesh::explodeMeshIntoMicroEdges(
                 desc, descIndx, revDesc, revDescIndx, MEDCouplingFastNbrer
             );
         case 3:
-            return buildDescendingConnectivityGen<MicroEdgesGenerator2D>(
+            return buildDescendingConnectivityGen<MicroEdgesGenerator3D>(
                 desc, descIndx, revDesc, revDescIndx, MEDCouplingFastNbrer
             );
         default:
-- 
2.43.0


From e93afc6fbbe3dc6f8611065f70b38f71b6bbbefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 013/148] fix: ComputeSpreadZoneGradually* ignore negative ids
 as documented

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index 4acc338..f07cb64 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -1932,7 +1932,7 @@ MEDCouplingUMesh::ComputeSpreadZoneGraduallyFromSeedAlg(
     {
         for (std::vector<mcIdType>::const_iterator it = idsToFetch->begin(); it != idsToFetch->end(); it++)
             for (const mcIdType *it2 = arrInPtr + arrIndxPtr[*it]; it2 != arrInPtr + arrIndxPtr[*it + 1]; it2++)
-                if (!fetched[*it2])
+                if (*it2 >= 0 && !fetched[*it2])
                 {
                     fetched[*it2] = true;
                     fetched2[*it2] = true;
-- 
2.43.0


From 806b1555c51844ff81b789439b83a67bcb8f29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 014/148] fix: generateGraph on polyhedrons

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 10e2129..60f2f9d 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -9567,12 +9567,14 @@ MEDCouplingUMesh::generateGraph() const
     for (mcIdType icell = 0; icell < nbCells; icell++)
     {
         std::map<mcIdType, mcIdType> counter;
-        for (mcIdType iconn = index_ptr[icell] + 1; iconn < index_ptr[icell + 1]; iconn++)
+        // each common node is counted once, face separators of polyhedrons are skipped
+        std::set<mcIdType> nodes(conn_ptr + index_ptr[icell] + 1, conn_ptr + index_ptr[icell + 1]);
+        nodes.erase(-1);
+        for (mcIdType inode : nodes)
         {
-            mcIdType inode = conn_ptr[iconn];
-            for (mcIdType iconnr = indexr_ptr[inode]; iconnr < indexr_ptr[inode + 1]; iconnr++)
+            std::set<mcIdType> cells(revConn_ptr + indexr_ptr[inode], revConn_ptr + indexr_ptr[inode + 1]);
+            for (mcIdType icell2 : cells)
             {
-                mcIdType icell2 = revConn_ptr[iconnr];
                 std::map<mcIdType, mcIdType>::iterator iter = counter.find(icell2);
                 if (iter != counter.end())
                     (iter->second)++;
-- 
2.43.0


From 4c2aa371c57e754f635c98cb67802092581f9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 015/148] fix: orientation status of quadratic faces stored in
 the same direction

---
 src/INTERP_KERNEL/CellModel.cxx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/INTERP_KERNEL/CellModel.cxx b/src/INTERP_KERNEL/CellModel.cxx
index 0532961..32c8e6d 100644
--- a/src/INTERP_KERNEL/CellModel.cxx
+++ b/src/INTERP_KERNEL/CellModel.cxx
@@ -1940,16 +1940,18 @@ CellModel::getOrientationStatus(mcIdType lgth, const mcIdType *conn1, const mcId
     {
         if (_dim != 1)
         {
-            std::vector<mcIdType> tmp(lgth);
-            std::vector<mcIdType>::iterator it = std::copy(conn1, conn1 + lgth / 2, tmp.begin());
-            std::copy(conn1, conn1 + lgth / 2, it);
-            it = std::search(tmp.begin(), tmp.end(), conn2, conn2 + lgth / 2);
+            // corners, then middles of edges, then an optional node at the center
+            const mcIdType nbCorners = lgth / 2;
+            std::vector<mcIdType> tmp(2 * nbCorners);
+            std::vector<mcIdType>::iterator it = std::copy(conn1, conn1 + nbCorners, tmp.begin());
+            std::copy(conn1, conn1 + nbCorners, it);
+            it = std::search(tmp.begin(), tmp.end(), conn2, conn2 + nbCorners);
             std::size_t d = std::distance(tmp.begin(), it);
             if (it == tmp.end())
                 return false;
-            it = std::copy(conn1 + lgth / 2, conn1 + lgth, tmp.begin());
-            std::copy(conn1 + lgth / 2, conn1 + lgth, it);
-            it = std::search(tmp.begin(), tmp.end(), conn2, conn2 + lgth);
+            it = std::copy(conn1 + nbCorners, conn1 + 2 * nbCorners, tmp.begin());
+            std::copy(conn1 + nbCorners, conn1 + 2 * nbCorners, it);
+            it = std::search(tmp.begin(), tmp.end(), conn2 + nbCorners, conn2 + 2 * nbCorners);
             if (it == tmp.end())
                 return false;
             std::size_t d2 = std::distance(tmp.begin(), it);
-- 
2.43.0


From b5388d7199b6e43f2541452a791803057d62f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 016/148] fix: computeNeighborsOfNodes on meshes with quadratic
 edges

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 60f2f9d..9beb7ff 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -1262,18 +1262,24 @@ MEDCouplingUMesh::computeNeighborsOfNodes(DataArrayIdType *&neighbors, DataArray
     revDesc = 0;
     revDescIndx = 0;
     mesh1D->getReverseNodalConnectivity(desc, descIndx);
-    MCAuto<DataArrayIdType> ret0(DataArrayIdType::New());
-    ret0->alloc(desc->getNumberOfTuples(), 1);
-    mcIdType *r0Pt(ret0->getPointer());
-    const mcIdType *c1DPtr(mesh1D->getNodalConnectivity()->begin()), *rn(desc->begin()), *rni(descIndx->begin());
+    // neighbors of a node are the other nodes (mid node included for quadratic edges) of the edges it belongs to
+    MCAuto<DataArrayIdType> ret0(DataArrayIdType::New()), ret1(DataArrayIdType::New());
+    ret0->alloc(0, 1);
+    ret0->reserve(desc->getNumberOfTuples());
+    ret1->alloc(nbNodes + 1, 1);
+    ret1->setIJ(0, 0, 0);
+    const mcIdType *c1DPtr(mesh1D->getNodalConnectivity()->begin()),
+        *c1DIPtr(mesh1D->getNodalConnectivityIndex()->begin()), *rn(desc->begin()), *rni(descIndx->begin());
     for (mcIdType i = 0; i < nbNodes; i++, rni++)
     {
         for (const mcIdType *oneDCellIt = rn + rni[0]; oneDCellIt != rn + rni[1]; oneDCellIt++)
-            *r0Pt++ =
-                c1DPtr[3 * (*oneDCellIt) + 1] == i ? c1DPtr[3 * (*oneDCellIt) + 2] : c1DPtr[3 * (*oneDCellIt) + 1];
+            for (const mcIdType *it = c1DPtr + c1DIPtr[*oneDCellIt] + 1; it != c1DPtr + c1DIPtr[*oneDCellIt + 1]; it++)
+                if (*it != i)
+                    ret0->pushBackSilent(*it);
+        ret1->setIJ(i + 1, 0, ret0->getNumberOfTuples());
     }
     neighbors = ret0.retn();
-    neighborsIdx = descIndx.retn();
+    neighborsIdx = ret1.retn();
 }
 
 /*!
-- 
2.43.0


From adf3cfc83994927000620583f671023e7651dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:32 +0000
Subject: [PATCH 017/148] fix: renumberNodesCenter removes the nodes of
 negative new id as documented

---
 src/MEDCoupling/MEDCouplingPointSet.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingPointSet.cxx b/src/MEDCoupling/MEDCouplingPointSet.cxx
index 64f2f68..0f4fb90 100644
--- a/src/MEDCoupling/MEDCouplingPointSet.cxx
+++ b/src/MEDCoupling/MEDCouplingPointSet.cxx
@@ -474,6 +474,8 @@ MEDCouplingPointSet::renumberNodesCenter(const mcIdType *newNodeNumbers, mcIdTyp
     const double *oldCoordsPtr = _coords->getConstPointer();
     for (mcIdType i = 0; i < oldNbOfNodes; i++)
     {
+        if (newNodeNumbers[i] < 0)
+            continue;  // removed node
         std::transform(
             oldCoordsPtr + i * spaceDim,
             oldCoordsPtr + (i + 1) * spaceDim,
-- 
2.43.0


From 8f1c96007c631232dfd8bc5c2996c28e829b8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:32 +0000
Subject: [PATCH 018/148] fix: crack duplication ignores faces with a single
 neighbour and does not turn around crack tips

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 9beb7ff..72cbdaf 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -3299,11 +3299,9 @@ MEDCouplingUMesh::findNodesToDuplicate(const MEDCouplingUMesh &crackingMesh) con
                 {
                     if (v >= nCellsDesc)  // Keep valid match only
                         continue;
-                    mcIdType idx0 = revDescIBNP[v];
-                    // Keep the two cells on either side of the face v of M1:
-                    mcIdType c1 = revDescBNP[idx0], c2 = revDescBNP[idx0 + 1];
-                    idsTouch->pushBackSilent(c1);
-                    idsTouch->pushBackSilent(c2);
+                    // Keep the cells of mAroundBN on either side of the face v of M1 (one of the two may not touch BN):
+                    for (mcIdType idx = revDescIBNP[v]; idx < revDescIBNP[v + 1]; idx++)
+                        idsTouch->pushBackSilent(revDescBNP[idx]);
                 }
                 //    3. Build complement
                 DAInt idsTouchCompl = idsTouch->buildComplement(nCells);
@@ -3398,8 +3396,13 @@ MEDCouplingUMesh::findCellsToRenumber(
     //     In the neighbor information remove the connection between high dimension cells and its low level constituents
     //     which are part of the frontier given in parameter (i.e. the cells of low dimension from the group delimiting
     //     the crack):
+    //     The faces without any node to duplicate are cut too: going through them would allow to turn around the tip of
+    //     the crack.
     DAInt descLTrunc = descL->deepCopy(), descILTrunc = descIL->deepCopy();
-    DataArrayIdType::RemoveIdsFromIndexedArrays(idsOfM1Large->begin(), idsOfM1Large->end(), descLTrunc, descILTrunc);
+    DAInt facesOnDup = mArGrpLargeDesc->getCellIdsLyingOnNodes(nodeIdsToDuplicateBg, nodeIdsToDuplicateEnd, false);
+    DAInt facesNotOnDup = facesOnDup->buildComplement(nL);
+    DAInt facesToCut = idsOfM1Large->buildUnion(facesNotOnDup);
+    DataArrayIdType::RemoveIdsFromIndexedArrays(facesToCut->begin(), facesToCut->end(), descLTrunc, descILTrunc);
     DataArrayIdType *neight = 0, *neighIt = 0;
     MEDCouplingUMesh::ComputeNeighborsOfCellsAdv(descLTrunc, descILTrunc, revDescL, revDescIL, neight, neighIt);
     DAInt neighL(neight), neighIL(neighIt);
@@ -3416,6 +3419,8 @@ MEDCouplingUMesh::findCellsToRenumber(
         if (v >= nL)
             continue;  // Keep valid match only - see doc of areCellsIncludedIn()
         mcIdType idx0 = revDescILP[v];
+        if (revDescILP[v + 1] - idx0 < 2)
+            continue;  // face on the boundary of this, or away from the nodes to duplicate: nothing to separate there
         // Retrieve the two cells on either side of the face v of M1:
         mcIdType c1 = revDescLP[idx0], c2 = revDescLP[idx0 + 1];
         std::map<mcIdType, mcIdType> toOther = {{c1, c2}, {c2, c1}};
-- 
2.43.0


From 5a67ed962925adeb1138a598a5a8fc356ec1ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:32 +0000
Subject: [PATCH 019/148] fix: rearrange2ConsecutiveCellTypes terminates when a
 type comes back before all types are found

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 72cbdaf..ee90753 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -7903,6 +7903,8 @@ MEDCouplingUMesh::rearrange2ConsecutiveCellTypes()
             types.push_back(curType);
             for (i++; i != connI + nbOfCells && (INTERP_KERNEL::NormalizedCellType)conn[*i] == curType; i++);
         }
+        else
+            i++;
     DataArrayIdType *ret = DataArrayIdType::New();
     ret->alloc(nbOfCells, 1);
     mcIdType *retPtr = ret->getPointer();
-- 
2.43.0


From 802d0cff78dcb0702bff5821bb7d6198098a07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 020/148] fix: findCommonCells(7) and areCellsIncludedInPolicy7
 report the ids of equal cells

---
 src/MEDCoupling/MEDCouplingUMesh.cxx          | 10 +++++++---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx |  5 +----
 src/MEDCoupling_Swig/MEDCouplingCommon.i      |  2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index ee90753..2d4efdf 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -2615,10 +2615,14 @@ MEDCouplingUMesh::areCellsIncludedInPolicy7(const MEDCouplingUMesh *other, DataA
         {
             for (mcIdType j = commonCellsIPtr[i] + 1; j != commonCellsIPtr[i + 1]; j++)
             {
-                mcIdType sig = commonCellsPtr[j] > 0 ? 1 : -1;
-                mcIdType val = std::abs(commonCellsPtr[j]) - 1;
+                mcIdType val = commonCellsPtr[j];
                 if (val >= thisNbCells)
-                    arr2Ptr[val - thisNbCells] = sig * (start + 1);
+                {
+                    int status = AreCellsEqualPolicy7(
+                        mesh->_nodal_connec->begin(), mesh->_nodal_connec_index->begin(), start, val
+                    );
+                    arr2Ptr[val - thisNbCells] = status == 1 ? start + 1 : -(start + 1);
+                }
             }
         }
     }
diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index f07cb64..00d5b11 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -1030,10 +1030,7 @@ MEDCouplingUMesh::AreCellsEqualInPool(
                 result->pushBackSilent(start);
                 ret = true;
             }
-            if (status == 1)
-                result->pushBackSilent(*iter);
-            else
-                result->pushBackSilent(status == 2 ? (*iter + 1) : -(*iter + 1));
+            result->pushBackSilent(*iter);
         }
     }
     return ret;
diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 523d85e..123bcd3 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -2755,7 +2755,7 @@ namespace MEDCoupling
 
       PyObject *areCellsIncludedInPolicy7(const MEDCouplingUMesh *other) const
       {
-        DataArrayIdType *ret1;
+        DataArrayIdType *ret1(nullptr);
         bool ret0=self->areCellsIncludedInPolicy7(other,ret1);
         PyObject *ret=PyTuple_New(2);
         PyObject *ret0Py=ret0?Py_True:Py_False;
-- 
2.43.0


From a1d3582bfc6ec61fe6b975038a1122cb56f8decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 021/148] fix: checkTypeConsistencyAndContig refuses a code
 whose numbers of cells do not match the mesh

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 2d4efdf..783e0cc 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -7462,8 +7462,6 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
     {
         if (!checkConsecutiveCellTypesAndOrder(&types[0], &types[0] + types.size()))
             throw INTERP_KERNEL::Exception("MEDCouplingUMesh::checkTypeConsistencyAndContig : non contiguous type !");
-        if (types.size() == _types.size())
-            return 0;
     }
     MCAuto<DataArrayIdType> ret = DataArrayIdType::New();
     ret->alloc(nb, 1);
@@ -7477,11 +7475,21 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
          it++, kk++)
     {
         i = std::find_if(i, connI + nbOfCells, MEDCouplingImpl::ConnReader2(conn, ToIdType((*it))));
+        if (i == connI + nbOfCells)
+            throw INTERP_KERNEL::Exception("MEDCouplingUMesh::checkTypeConsistencyAndContig : non contiguous type !");
         mcIdType offset = ToIdType(std::distance(connI, i));
         const mcIdType *j = std::find_if(i + 1, connI + nbOfCells, MEDCouplingImpl::ConnReader(conn, ToIdType((*it))));
         mcIdType nbOfCellsOfCurType = ToIdType(std::distance(i, j));
         if (code[3 * kk + 2] == -1)
+        {
+            if (code[3 * kk + 1] != nbOfCellsOfCurType)
+                THROW_IK_EXCEPTION(
+                    "MEDCouplingUMesh::checkTypeConsistencyAndContig : at section "
+                    << kk << " of code " << code[3 * kk + 1] << " cells are expected whereas this contains "
+                    << nbOfCellsOfCurType << " consecutive cells of this type !"
+                );
             for (mcIdType k = 0; k < nbOfCellsOfCurType; k++) *retPtr++ = k + offset;
+        }
         else
         {
             mcIdType idInIdsPerType = code[3 * kk + 2];
@@ -7493,6 +7501,13 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
                     zePfl->checkAllocated();
                     if (zePfl->getNumberOfComponents() == 1)
                     {
+                        if (code[3 * kk + 1] != zePfl->getNumberOfTuples())
+                            THROW_IK_EXCEPTION(
+                                "MEDCouplingUMesh::checkTypeConsistencyAndContig : at section "
+                                << kk << " of code " << code[3 * kk + 1]
+                                << " cells are expected whereas the profile contains " << zePfl->getNumberOfTuples()
+                                << " ids !"
+                            );
                         for (const mcIdType *k = zePfl->begin(); k != zePfl->end(); k++, retPtr++)
                         {
                             if (*k >= 0 && *k < nbOfCellsOfCurType)
@@ -7530,6 +7545,8 @@ MEDCouplingUMesh::checkTypeConsistencyAndContig(
         }
         i = j;
     }
+    if (isNoPflUsed && types.size() == _types.size())
+        return 0;
     return ret.retn();
 }
 
-- 
2.43.0


From 3b4f8550f911bff66ee5a41c569a985248f59fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 022/148] fix: areCellsIncludedIn works on an empty mesh and
 with duplicated cells

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 783e0cc..1355cb4 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -2569,12 +2569,12 @@ MEDCouplingUMesh::areCellsIncludedIn(const MEDCouplingUMesh *other, int compType
         newNbOfCells
     );
     MCAuto<DataArrayIdType> p0(o2n->selectByTupleIdSafeSlice(0, nbOfCells, 1));
-    mcIdType maxPart(p0->getMaxValueInArray());
+    mcIdType maxPart(nbOfCells > 0 ? p0->getMaxValueInArray() : -1);
     bool ret(maxPart == newNbOfCells - 1);
     MCAuto<DataArrayIdType> p1(p0->invertArrayO2N2N2O(newNbOfCells));
     // fill p1 array in case of presence of cells in other not in this
     mcIdType *pt(p1->getPointer());
-    for (mcIdType i = maxPart; i < newNbOfCells - 1; ++i) pt[i + 1] = i + 1;
+    for (mcIdType i = maxPart; i < newNbOfCells - 1; ++i) pt[i + 1] = nbOfCells + (i - maxPart);
     //
     MCAuto<DataArrayIdType> p2(o2n->subArray(nbOfCells));
     p2->transformWithIndArr(p1->begin(), p1->end());
-- 
2.43.0


From 3104ca0a0be031f04c87d33b235357ff4960f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 023/148] fix: findCommonCells does not report a polyhedron as
 equal to itself

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 1355cb4..9d4fd1f 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -2338,6 +2338,8 @@ MEDCouplingUMesh::FindCommonCellsAlgPrivate(
                         );
                         v2.resize(std::distance(v2.begin(), it));
                     }
+                // a polyhedron appears as many times as the node appears in its connectivity
+                v2.erase(std::unique(v2.begin(), v2.end()), v2.end());
                 if (v2.size() > 1)
                 {
                     if (AreCellsEqualInPool(v2, compType, connPtr, connIPtr, commonCells))
@@ -2387,6 +2389,8 @@ MEDCouplingUMesh::FindCommonCellsAlgPrivate(
                         v2.resize(std::distance(v2.begin(), it));
                     }
                 // v2 contains now candidates. Problem candidates are sorted using id rank.
+                // a polyhedron appears as many times as the node appears in its connectivity
+                v2.erase(std::unique(v2.begin(), v2.end()), v2.end());
                 if (v2.size() > 1)
                 {
                     if (v2[0] != i)
-- 
2.43.0


From 5467dad1ee2b03da1eddec1b59094111b9a34b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 024/148] fix: comparison of cells takes the type into account
 in policy 0 and the corner/middle layout of quadratic cells in policies 1 and
 7

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 71 ++++++++++++++++++----------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 9d4fd1f..ac1c943 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -2057,7 +2057,44 @@ int
 MEDCouplingUMesh::AreCellsEqualPolicy0(const mcIdType *conn, const mcIdType *connI, mcIdType cell1, mcIdType cell2)
 {
     if (connI[cell1 + 1] - connI[cell1] == connI[cell2 + 1] - connI[cell2])
-        return std::equal(conn + connI[cell1] + 1, conn + connI[cell1 + 1], conn + connI[cell2] + 1) ? 1 : 0;
+        return std::equal(conn + connI[cell1], conn + connI[cell1 + 1], conn + connI[cell2]) ? 1 : 0;
+    return 0;
+}
+
+/*!
+ * Compares the nodal connectivities (without type) of two 2D cells of the same type having both \a sz nodes. In
+ * quadratic cells the corners come first, then the middles of edges, and the center of the cell if any.
+ * \return 1 if they are equal up to a rotation, 2 if they are equal up to a rotation and an inversion of orientation, 0
+ * if not.
+ */
+static int
+Are2DCellsEqualUpToRotation(const mcIdType *cell1, const mcIdType *cell2, mcIdType sz, bool isQuadratic)
+{
+    const mcIdType nbCorners(isQuadratic ? sz / 2 : sz);
+    if (isQuadratic && sz % 2 == 1 && cell1[sz - 1] != cell2[sz - 1])
+        return 0;
+    for (mcIdType k = 0; k < nbCorners; k++)
+    {
+        bool isOk(true);
+        for (mcIdType i = 0; i < nbCorners && isOk; i++)
+        {
+            mcIdType pos((k + i) % nbCorners);
+            isOk = cell2[i] == cell1[pos] && (!isQuadratic || cell2[nbCorners + i] == cell1[nbCorners + pos]);
+        }
+        if (isOk)
+            return 1;
+    }
+    for (mcIdType k = 0; k < nbCorners; k++)
+    {
+        bool isOk(true);
+        for (mcIdType i = 0; i < nbCorners && isOk; i++)
+        {
+            mcIdType pos((k + nbCorners - i) % nbCorners), posMid((pos + nbCorners - 1) % nbCorners);
+            isOk = cell2[i] == cell1[pos] && (!isQuadratic || cell2[nbCorners + i] == cell1[nbCorners + posMid]);
+        }
+        if (isOk)
+            return 2;
+    }
     return 0;
 }
 
@@ -2079,14 +2116,11 @@ MEDCouplingUMesh::AreCellsEqualPolicy1(const mcIdType *conn, const mcIdType *con
             {
                 if (dim != 1)
                 {
-                    mcIdType sz1 = 2 * (sz - 1);
-                    INTERP_KERNEL::AutoPtr<mcIdType> tmp = new mcIdType[sz1];
-                    mcIdType *work = std::copy(conn + connI[cell1] + 1, conn + connI[cell1 + 1], (mcIdType *)tmp);
-                    std::copy(conn + connI[cell1] + 1, conn + connI[cell1 + 1], work);
-                    work = std::search(
-                        (mcIdType *)tmp, (mcIdType *)tmp + sz1, conn + connI[cell2] + 1, conn + connI[cell2 + 1]
-                    );
-                    return work != tmp + sz1 ? 1 : 0;
+                    return Are2DCellsEqualUpToRotation(
+                               conn + connI[cell1] + 1, conn + connI[cell2] + 1, sz - 1, cm.isQuadratic()
+                           ) == 1
+                               ? 1
+                               : 0;
                 }
                 else
                     return std::equal(conn + connI[cell1] + 1, conn + connI[cell1 + 1], conn + connI[cell2] + 1)
@@ -2156,24 +2190,9 @@ MEDCouplingUMesh::AreCellsEqualPolicy7(const mcIdType *conn, const mcIdType *con
             {
                 if (dim != 1)
                 {
-                    mcIdType sz1 = 2 * (sz - 1);
-                    INTERP_KERNEL::AutoPtr<mcIdType> tmp = new mcIdType[sz1];
-                    mcIdType *work = std::copy(conn + connI[cell1] + 1, conn + connI[cell1 + 1], (mcIdType *)tmp);
-                    std::copy(conn + connI[cell1] + 1, conn + connI[cell1 + 1], work);
-                    work = std::search(
-                        (mcIdType *)tmp, (mcIdType *)tmp + sz1, conn + connI[cell2] + 1, conn + connI[cell2 + 1]
+                    return Are2DCellsEqualUpToRotation(
+                        conn + connI[cell1] + 1, conn + connI[cell2] + 1, sz - 1, cm.isQuadratic()
                     );
-                    if (work != tmp + sz1)
-                        return 1;
-                    else
-                    {
-                        std::reverse_iterator<mcIdType *> it1((mcIdType *)tmp + sz1);
-                        std::reverse_iterator<mcIdType *> it2((mcIdType *)tmp);
-                        if (std::search(it1, it2, conn + connI[cell2] + 1, conn + connI[cell2 + 1]) != it2)
-                            return 2;
-                        else
-                            return 0;
-                    }
                 }
                 else
                 {  // case of SEG2 and SEG3
-- 
2.43.0


From 749e2d4bab013894cd7bb7e5f3fdcb6f6e9d2dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 025/148] fix: slice selection and assignment refuse tuples out
 of range

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 16b37c3..4f42044 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -1700,6 +1700,16 @@ DataArrayTemplate<T>::mySelectByTupleIdSafeSlice(mcIdType bg, mcIdType end2, mcI
     std::ostringstream oss;
     oss << Traits<T>::ArrayTypeName << "::selectByTupleIdSafeSlice : ";
     mcIdType newNbOfTuples(GetNumberOfItemGivenBESRelative(bg, end2, step, oss.str()));
+    if (newNbOfTuples > 0)
+    {
+        mcIdType nbOfTuples(getNumberOfTuples()), last(bg + (newNbOfTuples - 1) * step);
+        if (bg < 0 || bg >= nbOfTuples || last < 0 || last >= nbOfTuples)
+        {
+            oss << "invalid range of tuples : from #" << bg << " to #" << last << " whereas it should be in [0,"
+                << nbOfTuples << ") !";
+            throw INTERP_KERNEL::Exception(oss.str());
+        }
+    }
     ret->alloc(newNbOfTuples, nbComp);
     T *pt(ret->getPointer());
     const T *srcPt(getConstPointer() + bg * nbComp);
@@ -2372,7 +2382,7 @@ DataArrayTemplate<T>::setContigPartOfSelectedValues(
     mcIdType aNt(a->getNumberOfTuples());
     mcIdType nbOfTupleToWrite(tuplesSelec->getNumberOfTuples());
     T *valsToSet(getPointer() + tupleIdStart * nbOfComp);
-    if (tupleIdStart + nbOfTupleToWrite > thisNt)
+    if (tupleIdStart < 0 || tupleIdStart + nbOfTupleToWrite > thisNt)
         throw INTERP_KERNEL::Exception(
             "DataArrayTemplate::setContigPartOfSelectedValues : invalid number range of values to write !"
         );
@@ -2450,11 +2460,11 @@ DataArrayTemplate<T>::setContigPartOfSelectedValuesSlice(
     mcIdType thisNt(getNumberOfTuples());
     mcIdType aNt(a->getNumberOfTuples());
     T *valsToSet(getPointer() + tupleIdStart * nbOfComp);
-    if (tupleIdStart + nbOfTupleToWrite > thisNt)
+    if (tupleIdStart < 0 || tupleIdStart + nbOfTupleToWrite > thisNt)
         throw INTERP_KERNEL::Exception(
             "DataArrayTemplate::setContigPartOfSelectedValuesSlice : invalid number range of values to write !"
         );
-    if (end2 > aNt)
+    if (bg < 0 || end2 > aNt)
         throw INTERP_KERNEL::Exception(
             "DataArrayTemplate::setContigPartOfSelectedValuesSlice : invalid range of values to read !"
         );
-- 
2.43.0


From 764d6b8e1c91387a5f4b4c3a4bead15f12e50482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 026/148] fix: unit normals of concave 2D cells in 3D, and sign
 of buildPartOrthogonalField in 2D

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 59 +++++++++++++++++-----------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index ac1c943..ea1b55d 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -4507,6 +4507,35 @@ MEDCouplingUMesh::getMeasureFieldOnNode(bool isAbs) const
     return ret.retn();
 }
 
+namespace
+{
+/*!
+ * Computes the unit normal vector of a 2D cell lying in a 3D space, from the vectors area of the triangles
+ * ( first node, node i, node i+1 ) built on the linear nodes of the cell. Contrary to a product based on the sole
+ * first edge of the cell, the result is also right for a concave cell.
+ */
+void
+ComputeUnitNormalOf2DCellIn3D(const mcIdType *connBg, const mcIdType *connEnd, const double *coords, double *vals)
+{
+    const INTERP_KERNEL::CellModel &cm(
+        INTERP_KERNEL::CellModel::GetCellModel((INTERP_KERNEL::NormalizedCellType)*connBg)
+    );
+    mcIdType nbNodes(ToIdType(std::distance(connBg, connEnd)) - 1);
+    if (cm.isQuadratic())
+        nbNodes = cm.isDynamic() ? nbNodes / 2 : ToIdType(cm.getNumberOfSons());
+    std::fill(vals, vals + 3, 0.);
+    const double *p0(coords + 3 * connBg[1]);
+    for (mcIdType k = 1; k < nbNodes - 1; k++)
+    {
+        double area[3];
+        INTERP_KERNEL::crossprod<3>(p0, coords + 3 * connBg[1 + k], coords + 3 * connBg[2 + k], area);
+        std::transform(vals, vals + 3, area, vals, std::plus<double>());
+    }
+    double n = INTERP_KERNEL::norm<3>(vals);
+    std::transform(vals, vals + 3, vals, std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / n));
+}
+}  // namespace
+
 /*!
  * Returns a new MEDCouplingFieldDouble holding normal vectors to cells of \a this
  * mesh. The returned normal vectors to each cell have a norm2 equal to 1.
@@ -4544,19 +4573,8 @@ MEDCouplingUMesh::buildOrthogonalField() const
     {
         if (getSpaceDimension() == 3)
         {
-            MCAuto<DataArrayDouble> loc = computeCellCenterOfMass();
-            const double *locPtr = loc->getConstPointer();
             for (mcIdType i = 0; i < nbOfCells; i++, vals += 3)
-            {
-                mcIdType offset = connI[i];
-                INTERP_KERNEL::crossprod<3>(
-                    locPtr + 3 * i, coords + 3 * conn[offset + 1], coords + 3 * conn[offset + 2], vals
-                );
-                double n = INTERP_KERNEL::norm<3>(vals);
-                std::transform(
-                    vals, vals + 3, vals, std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / n)
-                );
-            }
+                ComputeUnitNormalOf2DCellIn3D(conn + connI[i], conn + connI[i + 1], coords, vals);
         }
         else
         {
@@ -4640,25 +4658,18 @@ MEDCouplingUMesh::buildPartOrthogonalField(const mcIdType *begin, const mcIdType
     {
         if (getSpaceDimension() == 3)
         {
-            MCAuto<DataArrayDouble> loc = getPartBarycenterAndOwner(begin, end);
-            const double *locPtr = loc->getConstPointer();
-            for (const mcIdType *i = begin; i != end; i++, vals += 3, locPtr += 3)
-            {
-                mcIdType offset = connI[*i];
-                INTERP_KERNEL::crossprod<3>(locPtr, coords + 3 * conn[offset + 1], coords + 3 * conn[offset + 2], vals);
-                double n = INTERP_KERNEL::norm<3>(vals);
-                std::transform(
-                    vals, vals + 3, vals, std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / n)
-                );
-            }
+            for (const mcIdType *i = begin; i != end; i++, vals += 3)
+                ComputeUnitNormalOf2DCellIn3D(conn + connI[*i], conn + connI[*i + 1], coords, vals);
         }
         else
         {
+            MCAuto<DataArrayDouble> measure(getPartMeasureField(false, begin, end));
+            const double *measurePtr(measure->begin());
             for (std::size_t i = 0; i < nbelems; i++)
             {
                 vals[3 * i] = 0.;
                 vals[3 * i + 1] = 0.;
-                vals[3 * i + 2] = 1.;
+                vals[3 * i + 2] = measurePtr[i] > 0. ? 1. : -1.;
             }
         }
     }
-- 
2.43.0


From 80b11c14255def6b544b08025b81724fcf611b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 027/148] fix: convertToPolyTypes drops the node at the center
 of TRI7 and QUAD9

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index ea1b55d..cbed1f0 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -1373,6 +1373,7 @@ MEDCouplingUMesh::convertToPolyTypes(const mcIdType *cellIdsToConvertBg, const m
     {
         const mcIdType *connIndex = _nodal_connec_index->begin();
         mcIdType *conn = _nodal_connec->getPointer();
+        bool hasCenterNode(false);
         for (const mcIdType *iter = cellIdsToConvertBg; iter != cellIdsToConvertEnd; iter++)
         {
             if (*iter >= 0 && *iter < nbOfCells)
@@ -1382,7 +1383,12 @@ MEDCouplingUMesh::convertToPolyTypes(const mcIdType *cellIdsToConvertBg, const m
                 if (!cm.isQuadratic())
                     conn[connIndex[*iter]] = INTERP_KERNEL::NORM_POLYGON;
                 else
+                {
+                    // a NORM_QPOLYG has no node at its center, contrary to NORM_TRI7 and NORM_QUAD9
+                    if ((connIndex[*iter + 1] - connIndex[*iter] - 1) % 2 != 0)
+                        hasCenterNode = true;
                     conn[connIndex[*iter]] = INTERP_KERNEL::NORM_QPOLYG;
+                }
             }
             else
             {
@@ -1393,6 +1399,22 @@ MEDCouplingUMesh::convertToPolyTypes(const mcIdType *cellIdsToConvertBg, const m
                 throw INTERP_KERNEL::Exception(oss.str());
             }
         }
+        if (hasCenterNode)
+        {
+            MCAuto<DataArrayIdType> connNew(DataArrayIdType::New()), connNewI(DataArrayIdType::New());
+            connNew->alloc(0, 1);
+            connNewI->alloc(1, 1);
+            connNewI->setIJ(0, 0, 0);
+            for (mcIdType cellId = 0; cellId < nbOfCells; cellId++)
+            {
+                mcIdType pos(connIndex[cellId]), posP1(connIndex[cellId + 1]);
+                if (conn[pos] == INTERP_KERNEL::NORM_QPOLYG && (posP1 - pos - 1) % 2 != 0)
+                    posP1--;
+                connNew->pushBackValsSilent(conn + pos, conn + posP1);
+                connNewI->pushBackSilent(connNewI->back() + posP1 - pos);
+            }
+            setConnectivity(connNew, connNewI, false);  // false because computeTypes called just behind.
+        }
     }
     else
     {
-- 
2.43.0


From e205703991a2b0aa66683ffa1fb3fc0ff98db783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 028/148] fix: center of mass of the quadratic cells supported
 by the measure

---
 src/INTERP_KERNEL/VolSurfUser.txx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/INTERP_KERNEL/VolSurfUser.txx b/src/INTERP_KERNEL/VolSurfUser.txx
index 7d4a305..c5679be 100644
--- a/src/INTERP_KERNEL/VolSurfUser.txx
+++ b/src/INTERP_KERNEL/VolSurfUser.txx
@@ -402,6 +402,7 @@ computeBarycenter(NormalizedCellType type, const ConnType *connec, mcIdType lgth
             break;
         }
         case NORM_QUAD8:
+        case NORM_QUAD9:
         {
             if (SPACEDIM == 2)
             {
@@ -417,7 +418,7 @@ computeBarycenter(NormalizedCellType type, const ConnType *connec, mcIdType lgth
                 computeQPolygonBarycenter2D(pts, 8, 2, res);
             }
             else if (SPACEDIM == 3)
-                computePolygonBarycenter3D<ConnType, numPol>(connec, lgth / 2, coords, res);
+                computePolygonBarycenter3D<ConnType, numPol>(connec, 4, coords, res);
             else
                 throw INTERP_KERNEL::Exception("Impossible spacedim linked to cell 2D Cell !");
             break;
@@ -440,6 +441,7 @@ computeBarycenter(NormalizedCellType type, const ConnType *connec, mcIdType lgth
         }
         break;
         case NORM_TETRA4:
+        case NORM_TETRA10:
         {
             res[0] = coords[3 * OTT<ConnType, numPol>::coo2C(connec[0])];
             res[1] = coords[3 * OTT<ConnType, numPol>::coo2C(connec[0]) + 1];
@@ -459,15 +461,18 @@ computeBarycenter(NormalizedCellType type, const ConnType *connec, mcIdType lgth
             break;
         }
         case NORM_PYRA5:
+        case NORM_PYRA13:
         {
             double tmp[3];
-            computePolygonBarycenter3D<ConnType, numPol>(connec, lgth - 1, coords, tmp);
+            computePolygonBarycenter3D<ConnType, numPol>(connec, 4, coords, tmp);
             res[0] = (coords[3 * OTT<ConnType, numPol>::coo2C(connec[4])] + 3. * tmp[0]) / 4.;
             res[1] = (coords[3 * OTT<ConnType, numPol>::coo2C(connec[4]) + 1] + 3. * tmp[1]) / 4.;
             res[2] = (coords[3 * OTT<ConnType, numPol>::coo2C(connec[4]) + 2] + 3. * tmp[2]) / 4.;
             break;
         }
         case NORM_HEXA8:
+        case NORM_HEXA20:
+        case NORM_HEXA27:
         {
             const ConnType conn[29] = {
                 OTT<ConnType, numPol>::coo2C(connec[0]),
@@ -504,6 +509,8 @@ computeBarycenter(NormalizedCellType type, const ConnType *connec, mcIdType lgth
             break;
         }
         case NORM_PENTA6:
+        case NORM_PENTA15:
+        case NORM_PENTA18:
         {
             const ConnType conn[22] = {
                 OTT<ConnType, numPol>::coo2C(connec[0]),
-- 
2.43.0


From 488eccf9fb5113f6a6c2f3abfe6ebc79f968bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 029/148] fix: area of concave polygons in 3D, length of nearly
 straight SEG3

---
 src/INTERP_KERNEL/VolSurfFormulae.hxx | 50 ++++++++++++++++++---------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/INTERP_KERNEL/VolSurfFormulae.hxx b/src/INTERP_KERNEL/VolSurfFormulae.hxx
index d68711e..86e9d06 100644
--- a/src/INTERP_KERNEL/VolSurfFormulae.hxx
+++ b/src/INTERP_KERNEL/VolSurfFormulae.hxx
@@ -28,6 +28,8 @@
 #include "InterpKernelGeo2DQuadraticPolygon.hxx"
 #include "MCIdType.hxx"
 
+#include <algorithm>
+#include <functional>
 #include <sstream>
 #include <cmath>
 
@@ -60,6 +62,12 @@ calculateLgthForSeg3(const double *begin, const double *end, const double *middl
 {
     if (spaceDim == 2)
     {
+        // phi is half of the angle of the arc. When it is tiny the center of the circle is rejected to infinity and
+        // the product of the radius by the angle is meaningless : the length is deduced from the chord.
+        const double u[2] = {middle[0] - begin[0], middle[1] - begin[1]}, v[2] = {end[0] - middle[0], end[1] - middle[1]};
+        const double phi = std::abs(std::atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]));
+        if (phi < 1e-4)
+            return calculateLgthForSeg2(begin, end, spaceDim) * (1. + phi * phi / 6.);
         Edge *ed = Edge::BuildEdgeFrom3Points(begin, middle, end);
         double ret = ed->getCurveLength();
         ed->decrRef();
@@ -116,23 +124,15 @@ calculateAreaForQuad(const double *p1, const double *p2, const double *p3, const
     }
     else
     {
-        area = (sqrt(
-                    ((p2[1] - p1[1]) * (p4[2] - p1[2]) - (p4[1] - p1[1]) * (p2[2] - p1[2])) *
-                        ((p2[1] - p1[1]) * (p4[2] - p1[2]) - (p4[1] - p1[1]) * (p2[2] - p1[2])) +
-                    ((p4[0] - p1[0]) * (p2[2] - p1[2]) - (p2[0] - p1[0]) * (p4[2] - p1[2])) *
-                        ((p4[0] - p1[0]) * (p2[2] - p1[2]) - (p2[0] - p1[0]) * (p4[2] - p1[2])) +
-                    ((p2[0] - p1[0]) * (p4[1] - p1[1]) - (p4[0] - p1[0]) * (p2[1] - p1[1])) *
-                        ((p2[0] - p1[0]) * (p4[1] - p1[1]) - (p4[0] - p1[0]) * (p2[1] - p1[1]))
-                ) +
-                sqrt(
-                    ((p4[1] - p3[1]) * (p2[2] - p3[2]) - (p2[1] - p3[1]) * (p4[2] - p3[2])) *
-                        ((p4[1] - p3[1]) * (p2[2] - p3[2]) - (p2[1] - p3[1]) * (p4[2] - p3[2])) +
-                    ((p2[0] - p3[0]) * (p4[2] - p3[2]) - (p4[0] - p3[0]) * (p2[2] - p3[2])) *
-                        ((p2[0] - p3[0]) * (p4[2] - p3[2]) - (p4[0] - p3[0]) * (p2[2] - p3[2])) +
-                    ((p4[0] - p3[0]) * (p2[1] - p3[1]) - (p2[0] - p3[0]) * (p4[1] - p3[1])) *
-                        ((p4[0] - p3[0]) * (p2[1] - p3[1]) - (p2[0] - p3[0]) * (p4[1] - p3[1]))
-                )) /
-               2.0;
+        // both triangles built on the diagonal p2-p4 : one of them is outside of the quadrangle if their normal vectors are
+        // opposite
+        double n1[3], n2[3];
+        crossprod<3>(p1, p2, p4, n1);
+        crossprod<3>(p3, p4, p2, n2);
+        if (dotprod<3>(n1, n2) < 0.)
+            area = std::abs(norm<3>(n1) - norm<3>(n2)) / 2.0;
+        else
+            area = (norm<3>(n1) + norm<3>(n2)) / 2.0;
     }
 
     return area;
@@ -213,9 +213,25 @@ calculateAreaForPolyg(const double **coords, mcIdType nbOfPtsInPolygs, int space
     double coordOfBary[3];
 
     calculateBarycenterDyn(coords, nbOfPtsInPolygs, spaceDim, coordOfBary);
+    // in 3D the area of a triangle is never negative : the triangles that are outside of the polygon are identified with
+    // their normal vector.
+    double area[3] = {0., 0., 0.};
+    for (mcIdType i = 0; i < nbOfPtsInPolygs && spaceDim == 3; i++)
+    {
+        double tmp[3];
+        crossprod<3>(coordOfBary, coords[i], coords[(i + 1) % nbOfPtsInPolygs], tmp);
+        std::transform(area, area + 3, tmp, area, std::plus<double>());
+    }
     for (mcIdType i = 0; i < nbOfPtsInPolygs; i++)
     {
         double tmp = calculateAreaForTria(coords[i], coords[(i + 1) % nbOfPtsInPolygs], coordOfBary, spaceDim);
+        if (spaceDim == 3)
+        {
+            double normal[3];
+            crossprod<3>(coordOfBary, coords[i], coords[(i + 1) % nbOfPtsInPolygs], normal);
+            if (dotprod<3>(normal, area) < 0.)
+                tmp = -tmp;
+        }
         ret += tmp;
     }
     return ret;
-- 
2.43.0


From 8f919f26c7cf2f66689c4ba8abec5eadea18fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 030/148] fix: diameter of QUAD4, HEXA8, PENTA6 and PYRA5 uses
 every couple of nodes

---
 src/INTERP_KERNEL/DiameterCalculator.cxx | 87 ++++++++----------------
 1 file changed, 27 insertions(+), 60 deletions(-)

diff --git a/src/INTERP_KERNEL/DiameterCalculator.cxx b/src/INTERP_KERNEL/DiameterCalculator.cxx
index a0bf453..82161fa 100644
--- a/src/INTERP_KERNEL/DiameterCalculator.cxx
+++ b/src/INTERP_KERNEL/DiameterCalculator.cxx
@@ -170,6 +170,28 @@ ComputeFor1SGTUMeshFrmt(mcIdType nbOfCells, const mcIdType *connPtr, const doubl
 
 //=================================================================
 
+/*!
+ * The longest SEG2 of a cell is not always one of its diagonals.
+ */
+template <int DIM>
+static double
+MaxDistanceBetweenNodes(const mcIdType *bg, const mcIdType *endd, const double *coordsPtr)
+{
+    double ret(0.);
+    for (const mcIdType *i = bg; i != endd; i++)
+        for (const mcIdType *j = i + 1; j != endd; j++)
+        {
+            double tmp(0.);
+            for (int k = 0; k < DIM; k++)
+            {
+                double diff(coordsPtr[DIM * (*i) + k] - coordsPtr[DIM * (*j) + k]);
+                tmp += diff * diff;
+            }
+            ret = std::max(ret, tmp);
+        }
+    return std::sqrt(ret);
+}
+
 double
 DiameterCalulatorTRI3S2::ComputeForOneCellInternal(const mcIdType *bg, const mcIdType *endd, const double *coordsPtr)
 {
@@ -463,12 +485,7 @@ DiameterCalulatorQUAD4S2::ComputeForOneCellInternal(const mcIdType *bg, const mc
 {
     if (std::distance(bg, endd) == 4)
     {
-        const double *a(coordsPtr + 2 * bg[0]), *b(coordsPtr + 2 * bg[1]), *c(coordsPtr + 2 * bg[2]),
-            *d(coordsPtr + 2 * bg[3]);
-        double l0[2], l1[2];
-        DiffV2(a, c, l0);
-        DiffV2(b, d, l1);
-        return std::sqrt(std::max(SqNormV2(l0), SqNormV2(l1)));
+        return MaxDistanceBetweenNodes<2>(bg, endd, coordsPtr);
     }
     else
         throw Exception("DiameterCalulatorQUAD4S2::ComputeForOneCellInternal : input connectivity must be of size 4 !");
@@ -515,12 +532,7 @@ DiameterCalulatorQUAD4S3::ComputeForOneCellInternal(const mcIdType *bg, const mc
 {
     if (std::distance(bg, endd) == 4)
     {
-        const double *a(coordsPtr + 3 * bg[0]), *b(coordsPtr + 3 * bg[1]), *c(coordsPtr + 3 * bg[2]),
-            *d(coordsPtr + 3 * bg[3]);
-        double l0[3], l1[3];
-        DiffV3(a, c, l0);
-        DiffV3(b, d, l1);
-        return std::sqrt(std::max(SqNormV3(l0), SqNormV3(l1)));
+        return MaxDistanceBetweenNodes<3>(bg, endd, coordsPtr);
     }
     else
         throw Exception("DiameterCalulatorQUAD4S3::ComputeForOneCellInternal : input connectivity must be of size 4 !");
@@ -857,20 +869,7 @@ DiameterCalulatorHEXA8::ComputeForOneCellInternal(const mcIdType *bg, const mcId
 {
     if (std::distance(bg, endd) == 8)
     {
-        const double *p0(coordsPtr + 3 * bg[0]), *p1(coordsPtr + 3 * bg[1]), *p2(coordsPtr + 3 * bg[2]),
-            *p3(coordsPtr + 3 * bg[3]), *p4(coordsPtr + 3 * bg[4]), *p5(coordsPtr + 3 * bg[5]),
-            *p6(coordsPtr + 3 * bg[6]), *p7(coordsPtr + 3 * bg[7]);
-        double l0[3], l1[3], l2[3], l3[3];
-        DiffV3(p0, p6, l0);
-        DiffV3(p1, p7, l1);
-        DiffV3(p2, p4, l2);
-        DiffV3(p3, p5, l3);
-        double tmp[4];
-        tmp[0] = SqNormV3(l0);
-        tmp[1] = SqNormV3(l1);
-        tmp[2] = SqNormV3(l2);
-        tmp[3] = SqNormV3(l3);
-        return std::sqrt(*std::max_element(tmp, tmp + 4));
+        return MaxDistanceBetweenNodes<3>(bg, endd, coordsPtr);
     }
     else
         throw Exception("DiameterCalulatorHEXA8::ComputeForOneCellInternal : input connectivity must be of size 8 !");
@@ -1007,23 +1006,7 @@ DiameterCalulatorPENTA6::ComputeForOneCellInternal(const mcIdType *bg, const mcI
 {
     if (std::distance(bg, endd) == 6)
     {
-        const double *p0(coordsPtr + 3 * bg[0]), *p1(coordsPtr + 3 * bg[1]), *p2(coordsPtr + 3 * bg[2]),
-            *p3(coordsPtr + 3 * bg[3]), *p4(coordsPtr + 3 * bg[4]), *p5(coordsPtr + 3 * bg[5]);
-        double l0[3], l1[3], l2[3], l3[3], l4[3], l5[3];
-        DiffV3(p0, p4, l0);
-        DiffV3(p1, p3, l1);
-        DiffV3(p1, p5, l2);
-        DiffV3(p2, p4, l3);
-        DiffV3(p0, p5, l4);
-        DiffV3(p2, p3, l5);
-        double tmp[6];
-        tmp[0] = SqNormV3(l0);
-        tmp[1] = SqNormV3(l1);
-        tmp[2] = SqNormV3(l2);
-        tmp[3] = SqNormV3(l3);
-        tmp[4] = SqNormV3(l4);
-        tmp[5] = SqNormV3(l5);
-        return std::sqrt(*std::max_element(tmp, tmp + 6));
+        return MaxDistanceBetweenNodes<3>(bg, endd, coordsPtr);
     }
     else
         throw Exception("DiameterCalulatorPENTA6::ComputeForOneCellInternal : input connectivity must be of size 6 !");
@@ -1117,23 +1100,7 @@ DiameterCalulatorPYRA5::ComputeForOneCellInternal(const mcIdType *bg, const mcId
 {
     if (std::distance(bg, endd) == 5)
     {
-        const double *p0(coordsPtr + 3 * bg[0]), *p1(coordsPtr + 3 * bg[1]), *p2(coordsPtr + 3 * bg[2]),
-            *p3(coordsPtr + 3 * bg[3]), *p4(coordsPtr + 3 * bg[4]);
-        double l0[3], l1[3], l2[3], l3[3], l4[3], l5[3];
-        DiffV3(p0, p2, l0);
-        DiffV3(p1, p3, l1);
-        DiffV3(p0, p4, l2);
-        DiffV3(p1, p4, l3);
-        DiffV3(p2, p4, l4);
-        DiffV3(p3, p4, l5);
-        double tmp[6];
-        tmp[0] = SqNormV3(l0);
-        tmp[1] = SqNormV3(l1);
-        tmp[2] = SqNormV3(l2);
-        tmp[3] = SqNormV3(l3);
-        tmp[4] = SqNormV3(l4);
-        tmp[5] = SqNormV3(l5);
-        return std::sqrt(*std::max_element(tmp, tmp + 6));
+        return MaxDistanceBetweenNodes<3>(bg, endd, coordsPtr);
     }
     else
         throw Exception("DiameterCalulatorPYRA5::ComputeForOneCellInternal : input connectivity must be of size 5 !");
-- 
2.43.0


From efcd99a88191d565f864785c5134824904bc16ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:06 +0000
Subject: [PATCH 031/148] fix: MaxDistance3DSurfIntersect is a distance, not a
 volume

---
 src/INTERP_KERNEL/PlanarIntersector.txx | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/INTERP_KERNEL/PlanarIntersector.txx b/src/INTERP_KERNEL/PlanarIntersector.txx
index 2c92c40..2786b3a 100644
--- a/src/INTERP_KERNEL/PlanarIntersector.txx
+++ b/src/INTERP_KERNEL/PlanarIntersector.txx
@@ -404,19 +404,10 @@ PlanarIntersector<MyMeshType, MyMatrix>::Projection(
             for (int j = 0; j < nb_NodesA; j++) coords_GA[i] += Coords_A[3 * j + i];
             coords_GA[i] /= (double)nb_NodesA;
         }
-        double G1[3], G2[3], G3[3];
-        for (int i = 0; i < 3; i++)
-        {
-            G1[i] = Coords_B[i] - coords_GA[i];
-            G2[i] = Coords_B[i + 3] - coords_GA[i];
-            G3[i] = Coords_B[i + 6] - coords_GA[i];
-        }
-        double prodvect[3];
-        prodvect[0] = G1[1] * G2[2] - G1[2] * G2[1];
-        prodvect[1] = G1[2] * G2[0] - G1[0] * G2[2];
-        prodvect[2] = G1[0] * G2[1] - G1[1] * G2[0];
-        double prodscal = prodvect[0] * G3[0] + prodvect[1] * G3[1] + prodvect[2] * G3[2];
-        if (fabs(prodscal) > md3DSurf)
+        double G1[3];
+        for (int i = 0; i < 3; i++) G1[i] = Coords_B[i] - coords_GA[i];
+        // distance between the barycenter of A and the plane of B
+        if (fabs(dotprod<SPACEDIM>(G1, normal_B)) > md3DSurf * normB)
             return 0;
     }
     if (i_A2 < nb_NodesA && i_B2 < nb_NodesB)
-- 
2.43.0


From 6ea8bc821744548baccd668234a7d6160bb549cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 032/148] fix: interpolation of polyhedra with a Cartesian mesh
 read the face separators as nodes

---
 src/INTERP_KERNEL/IntersectorCU3D.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/IntersectorCU3D.txx b/src/INTERP_KERNEL/IntersectorCU3D.txx
index d808035..f31e8cc 100644
--- a/src/INTERP_KERNEL/IntersectorCU3D.txx
+++ b/src/INTERP_KERNEL/IntersectorCU3D.txx
@@ -137,7 +137,7 @@ INTERSECTOR_CU3D::intersectGeometry(UConnType icellT, const std::vector<CConnTyp
 {
     // split an unstructured cell into tetra
     std::vector<TTetra *> tetra;
-    UConnType nb_nodes = _INTERSECTOR_CU::_connIndexU[icellT + 1] - _INTERSECTOR_CU::_connIndexU[icellT];
+    UConnType nb_nodes = _INTERSECTOR_CU::_meshU.getNumberOfNodesOfElement(_TMIU(icellT));
     _split->releaseArrays();
     _split->splitTargetCell(icellT, nb_nodes, tetra);
 
-- 
2.43.0


From 34ef006e30bdb7f3d7a70e23c4f3a679a85cfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 033/148] fix: no null coefficient in the
 Cartesian/unstructured interpolation matrix

---
 src/INTERP_KERNEL/IntersectorCU.txx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INTERP_KERNEL/IntersectorCU.txx b/src/INTERP_KERNEL/IntersectorCU.txx
index ed54529..a49711c 100644
--- a/src/INTERP_KERNEL/IntersectorCU.txx
+++ b/src/INTERP_KERNEL/IntersectorCU.txx
@@ -149,6 +149,8 @@ void
 _INTERSECTOR_CU_::intersectCells(CConnType icellU, const std::vector<CConnType> &icellC, MyMatrix &res)
 {
     double v = intersectGeometry(icellU, icellC);
+    if (v == 0.)
+        return;
 
     CConnType iC = icellC[0], area = _nbCellsC[0];
     for (int j = 1; j < SPACEDIM; ++j)
-- 
2.43.0


From c66e22cdf8864bc47b5f88ac5d49ac24a88e84dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 034/148] fix: bounding boxes of polyhedra in
 Cartesian/unstructured interpolation

---
 src/INTERP_KERNEL/IntersectorCU.txx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/IntersectorCU.txx b/src/INTERP_KERNEL/IntersectorCU.txx
index a49711c..7444b0b 100644
--- a/src/INTERP_KERNEL/IntersectorCU.txx
+++ b/src/INTERP_KERNEL/IntersectorCU.txx
@@ -93,7 +93,10 @@ _INTERSECTOR_CU_::getUElemBB(double *bb, UConnType icell)
     {
         // const double*
         // coord_node=_coordsU+SPACEDIM*(OTT<ConnType,numPol>::coo2C(conn[OTT<ConnType,numPol>::conn2C(conn_index[OTT<ConnType,numPol>::ind2C(iP)]+i)]));
-        const double *coord_node = _coordsU + SPACEDIM * (_FMCOO(_connectU[_FMCON(_connIndexU[_FMIU(icell)] + i)]));
+        const UConnType node = _FMCOO(_connectU[_FMCON(_connIndexU[_FMIU(icell)] + i)]);
+        if (node < 0)  // separation between two faces of a polyhedron
+            continue;
+        const double *coord_node = _coordsU + SPACEDIM * node;
         for (int idim = 0; idim < SPACEDIM; idim++)
         {
             double x = *(coord_node + idim);
-- 
2.43.0


From a51291b0d41ea2de86f2c9aa16ea120ced5522d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 035/148] fix: Geometric2D intersector on cells of opposite
 orientations sharing edges

---
 src/INTERP_KERNEL/Geometric2DIntersector.txx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INTERP_KERNEL/Geometric2DIntersector.txx b/src/INTERP_KERNEL/Geometric2DIntersector.txx
index 8ca0251..6c7c5ec 100644
--- a/src/INTERP_KERNEL/Geometric2DIntersector.txx
+++ b/src/INTERP_KERNEL/Geometric2DIntersector.txx
@@ -76,6 +76,8 @@ GEO2D_INTERSECTOR::intersectGeometry(ConnType icellT, ConnType icellS, ConnType
     NormalizedCellType tS = PlanarIntersector<MyMeshType, MyMatrix>::_meshS.getTypeOfElement(icellS);
     QuadraticPolygon *p1 = buildPolygonFrom(CoordsT, tT);
     QuadraticPolygon *p2 = buildPolygonFrom(CoordsS, tS);
+    if (p1->getArea() * p2->getArea() < 0.)  // shared edges are recognized only if the orientations are the same
+        p2->reverse();
     double ret = p1->intersectWithAbs(*p2);
     delete p1;
     delete p2;
-- 
2.43.0


From 077a8694378861fe60551bda1357c7c0a60b069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 036/148] fix: IntensiveConservation from or to a mesh of
 dimension -1

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index 1c41fbe..bec52e5 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -1454,8 +1454,8 @@ MEDCouplingRemapper::computeDenoFromScratch(
             const double *denoRPtr = denoR->getArray()->getConstPointer();
             if (trgField->getMesh()->getMeshDimension() == -1)
             {
-                double *denoRPtr2 = denoR->getArray()->getPointer();
-                denoRPtr2[0] = std::accumulate(denoPtr, denoPtr + deno->getNumberOfTuples(), 0.);
+                double *denoPtr2 = deno->getArray()->getPointer();
+                denoPtr2[0] = std::accumulate(denoRPtr, denoRPtr + denoR->getNumberOfTuples(), 0.);
             }
             if (srcField->getMesh()->getMeshDimension() == -1)
             {
-- 
2.43.0


From fb898584c6dc197be3a844680ee101988dd9c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 037/148] fix: IntensiveConservation from a mesh of dimension
 -1

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index bec52e5..723bea9 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -1459,8 +1459,8 @@ MEDCouplingRemapper::computeDenoFromScratch(
             }
             if (srcField->getMesh()->getMeshDimension() == -1)
             {
-                double *denoPtr2 = deno->getArray()->getPointer();
-                denoPtr2[0] = std::accumulate(denoRPtr, denoRPtr + denoR->getNumberOfTuples(), 0.);
+                double *denoRPtr2 = denoR->getArray()->getPointer();
+                denoRPtr2[0] = std::accumulate(denoPtr, denoPtr + deno->getNumberOfTuples(), 0.);
             }
             mcIdType idx = 0;
             for (std::vector<std::map<mcIdType, double> >::const_iterator iter1 = _matrix.begin();
-- 
2.43.0


From 707d9b62e971ee81416ff9eb4349b70bb1512a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 038/148] fix: cells corners wrongly seen as cut off in the 3D
 barycentric P1P0 intersector

---
 .../UnitTetraIntersectionBary.cxx             | 128 +-----------------
 1 file changed, 2 insertions(+), 126 deletions(-)

diff --git a/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx b/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx
index d605fd5..9a773d9 100644
--- a/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx
+++ b/src/INTERP_KERNEL/UnitTetraIntersectionBary.cxx
@@ -425,9 +425,9 @@ UnitTetraIntersectionBary::addSideFaces()
     // corners are coded like this: index = 1*X + 2*Y + 3*Z
     // (0,0,0) -> index == 0; (0,0,1) -> index == 3
     int cutOffCorners[NB_TETRA_NODES] = {false, false, false, false};
-    int passedCorners[NB_TETRA_NODES] = {false, false, false, false};
 
-    // find cutOffCorners by normals of intersection polygons
+    // Find cutOffCorners by normals of intersection polygons. As the other cell is convex a corner is out of it
+    // if and only if it is out of one of the planes of the faces that intersect the unit tetra.
     int nbCutOffCorners = 0;
     for (int ic = 0; ic < NB_TETRA_NODES; ++ic)
     {
@@ -454,130 +454,6 @@ UnitTetraIntersectionBary::addSideFaces()
         }
     }
 
-    for (int i = 0; i < 3; ++i)  // loop on orthogonal faces of the unit tetra
-    {
-        if (!sideFaces[i])
-            continue;
-        std::vector<double *> &sideFace = *sideFaces[i];
-
-        std::size_t nbPoints = sideFace.size();
-        if (nbPoints == 0)
-            continue;  // not intersected face at all - no cut off corners can be detected
-
-        int ind1 = (i + 1) % 3, ind2 = (i + 2) % 3;  // indices of coords on i-th tetra side
-
-        int nbCutOnSide = 0;
-        bool isSegmentOnEdge = false;
-        for (std::size_t ip = 0; ip < nbPoints; ++ip)
-        {
-            std::size_t isSegmentEnd = (ip % 2);
-
-            double *p = sideFace[ip];
-            double *p2 = isSegmentEnd ? 0 : sideFace[ip + 1];
-
-            if (!isSegmentEnd)
-                isSegmentOnEdge = false;  // initialize
-
-            int cutOffIndex = -1, passThIndex = -1;  // no cut off neither pass through
-            int pCut[] = {0, 0, 0}, pPass[] = {0, 0, 0};
-
-            if (epsilonEqual(p[ind1], 0.))
-            {
-                // point is on orthogonal edge
-                if (!isSegmentEnd && epsilonEqual(p2[ind1], 0.))
-                    isSegmentOnEdge = true;
-
-                if (!isSegmentOnEdge)
-                {                                    // segment ends are on different edges
-                    pCut[ind2] = (int)isSegmentEnd;  // believe that cutting triangles are well oriented
-                    cutOffIndex = pCut[0] + 2 * pCut[1] + 3 * pCut[2];
-                }
-                if (epsilonEqual(p[ind2], 0.) || epsilonEqual(p[ind2], 1.))
-                {
-                    pPass[ind2] = (p[ind2] < 0.5) ? 0 : 1;
-                    passThIndex = pPass[0] + 2 * pPass[1] + 3 * pPass[2];
-                }
-            }
-            else if (epsilonEqual(p[ind2], 0.))
-            {
-                // point is on orthogonal edge
-                if (!isSegmentEnd && epsilonEqual(p2[ind2], 0.))
-                    isSegmentOnEdge = true;
-                if (!isSegmentEnd)
-                {  // segment ends are on different edges
-                    pCut[ind1] = 1 - (int)isSegmentEnd;
-                    cutOffIndex = pCut[0] + 2 * pCut[1] + 3 * pCut[2];
-                }
-                if (epsilonEqual(p[ind1], 0.) || epsilonEqual(p[ind1], 1.))
-                {
-                    pPass[ind1] = (p[ind1] < 0.5) ? 0 : 1;
-                    passThIndex = pPass[0] + 2 * pPass[1] + 3 * pPass[2];
-                }
-            }
-            else if (epsilonEqual(p[ind1] + p[ind2], 1.0))
-            {
-                // point is on inclined edge
-                if (!isSegmentEnd && epsilonEqual(p2[ind1] + p2[ind2], 1.0))
-                    isSegmentOnEdge = true;
-                if (!isSegmentOnEdge)
-                {  // segment ends are on different edges
-                    pCut[ind1] = (int)isSegmentEnd;
-                    pCut[ind2] = 1 - (int)isSegmentEnd;
-                    cutOffIndex = pCut[0] + 2 * pCut[1] + 3 * pCut[2];
-                }
-            }
-            else
-            {
-                continue;
-            }
-            // remember cut off and passed through points
-            if (passThIndex >= 0)
-            {
-                passedCorners[passThIndex] = true;
-                if (cutOffCorners[passThIndex])
-                {
-                    nbCutOffCorners--;
-                    cutOffCorners[passThIndex] = false;
-#ifdef DMP_UNITTETRAINTERSECTIONBARY
-                    std::cout << "PASS THROUGH " << passThIndex << std::endl;
-#endif
-                }
-            }
-            if (cutOffIndex >= 0)
-            {
-                nbCutOnSide++;
-                if (!passedCorners[cutOffIndex] && !cutOffCorners[cutOffIndex])
-                {
-                    nbCutOffCorners++;
-                    cutOffCorners[cutOffIndex] = true;
-                }
-            }
-        }  // loop on points on a unit tetra side
-
-        if (nbCutOnSide == 0 && nbPoints <= 2)
-            continue;  // one segment laying on edge at most
-
-        if (nbCutOffCorners == NB_TETRA_NODES)
-            break;  // all tetra corners are cut off
-
-        if (/*nbCutOnSide <= 2 &&*/ nbPoints >= 6)
-        {
-            // at least 3 segments - all corners of a side are cut off
-            for (int cutIndex = 0; cutIndex < NB_TETRA_NODES; ++cutIndex)
-                if (cutIndex != i + 1 && !passedCorners[cutIndex] && !cutOffCorners[cutIndex])
-                    cutOffCorners[cutIndex] = ++nbCutOffCorners != 0;
-        }
-    }
-    // loop on orthogonal faces of tetra
-
-    // check if all corners are cut off on the inclined tetra side
-    if (sideFaces[XYZ] && sideFaces[XYZ]->size() >= 6)
-    {
-        for (int cutIndex = 1; cutIndex < NB_TETRA_NODES; ++cutIndex)
-            if (!passedCorners[cutIndex] && !cutOffCorners[cutIndex])
-                cutOffCorners[cutIndex] = ++nbCutOffCorners != 0;
-    }
-
     // Add to faces on tetra sides the corners not cut off by segments of intersection polygons
     // ----------------------------------------------------------------------------------
     if (nbCutOffCorners > 0)
-- 
2.43.0


From e0ac775338ead24ea7d3c795ac04e6b7ed7f1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 039/148] fix: barycentre of the intersection in
 TriangulationIntersector::intersectGeoBary

---
 src/INTERP_KERNEL/TriangulationIntersector.txx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/INTERP_KERNEL/TriangulationIntersector.txx b/src/INTERP_KERNEL/TriangulationIntersector.txx
index 81eea1c..b141042 100644
--- a/src/INTERP_KERNEL/TriangulationIntersector.txx
+++ b/src/INTERP_KERNEL/TriangulationIntersector.txx
@@ -265,9 +265,9 @@ TRI_INTERSECTOR::intersectGeoBary(
             INTERP_KERNEL::crossprod<2>(&inter[0], &inter[2 * i], &inter[2 * (i + 1)], inter_area);
             inter_area[0] = 0.5 * fabs(inter_area[0]);
             total_area += inter_area[0];
-            std::vector<double> inter_bary = INTERP_KERNEL::bary_poly(inter);
-            total_barycenter[0] += inter_area[0] * inter_bary[0];
-            total_barycenter[1] += inter_area[0] * inter_bary[1];
+            // barycenter of the triangle whose area has just been added
+            total_barycenter[0] += inter_area[0] * (inter[0] + inter[2 * i] + inter[2 * (i + 1)]) / 3.;
+            total_barycenter[1] += inter_area[0] * (inter[1] + inter[2 * i + 1] + inter[2 * (i + 1) + 1]) / 3.;
         }
     }
     if (total_area > std::numeric_limits<double>::min())
-- 
2.43.0


From c7f6706f3b987d1275806a1b58ccb1deb4979dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 040/148] fix: out of bounds accumulation in
 PlanarIntersectorP0P1Bary

---
 src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx b/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx
index 0474743..0d878dc 100644
--- a/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx
+++ b/src/INTERP_KERNEL/PlanarIntersectorP0P1Bary.txx
@@ -134,7 +134,7 @@ PlanarIntersectorP0P1Bary<MyMeshType, MyMatrix, ConcreteP0P1Intersector>::inters
                 typename MyMatrix::value_type::const_iterator iterRes = resRow.find(*iter);
                 if (iterRes != resRow.end())
                 {
-                    nodeCeffs[*iter] += iterRes->second;
+                    nodeCeffs[nodeIdT] += iterRes->second;
                     resRow.erase(*iter);
                 }
                 resRow.insert(std::make_pair(*iter, nodeCeffs[nodeIdT]));
-- 
2.43.0


From fae2da4b6f7cccae852cf0144bd91cb59c43a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:36 +0000
Subject: [PATCH 041/148] fix: division by a null coordinate in
 quad_mapped_coords

---
 src/INTERP_KERNEL/InterpolationUtils.hxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/INTERP_KERNEL/InterpolationUtils.hxx b/src/INTERP_KERNEL/InterpolationUtils.hxx
index 921f532..f38687e 100644
--- a/src/INTERP_KERNEL/InterpolationUtils.hxx
+++ b/src/INTERP_KERNEL/InterpolationUtils.hxx
@@ -763,12 +763,13 @@ quad_mapped_coords(const std::vector<const double *> &n, const double *p, double
         );
     if (cas1)
     {
-        double denom = C[0] + bc[1] * N[0];
-        if (fabs(denom) < prec)
+        const double denoms[2] = {C[0] + bc[1] * N[0], C[1] + bc[1] * N[1]};
+        const int k = fabs(denoms[0]) >= fabs(denoms[1]) ? 0 : 1;
+        if (fabs(denoms[k]) < prec)
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: quad_mapped_coords(): point doesn't seem to be in quad4!"
             );
-        bc[0] = (P[0] - bc[1] * A[0]) / denom;
+        bc[0] = (P[k] - bc[1] * A[k]) / denoms[k];
         if (bc[0] < -prec || bc[0] > (1.0 + prec))
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: quad_mapped_coords(): point doesn't seem to be in quad4!"
@@ -777,12 +778,13 @@ quad_mapped_coords(const std::vector<const double *> &n, const double *p, double
     else
     {
         bc[0] = bc[1];
-        double denom = A[1] + bc[0] * N[1];
-        if (fabs(denom) < prec)
+        const double denoms[2] = {A[0] + bc[0] * N[0], A[1] + bc[0] * N[1]};
+        const int k = fabs(denoms[0]) >= fabs(denoms[1]) ? 0 : 1;
+        if (fabs(denoms[k]) < prec)
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: cuboid_mapped_coord(): point doesn't seem to be in quad4!"
             );
-        bc[1] = (P[1] - bc[0] * C[1]) / denom;
+        bc[1] = (P[k] - bc[0] * C[k]) / denoms[k];
         if (bc[1] < -prec || bc[1] > (1.0 + prec))
             throw INTERP_KERNEL::Exception(
                 "MappedBarycentric intersection type: cuboid_mapped_coord(): point doesn't seem to be in quad4!"
-- 
2.43.0


From ea1a92941bcd642d14d7374f8d040204c03e2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:37 +0000
Subject: [PATCH 042/148] fix: TRI6 reference element: node 3 and shape
 function of node 5

---
 src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
index 8348a5c..c48193c 100644
--- a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
+++ b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
@@ -41,7 +41,7 @@ const double GaussInfo::TRIA3A_REF[6] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0};
 
 const double GaussInfo::TRIA3B_REF[6] = {0.0, 0.0, 1.0, 0.0, 0.0, 1.0};
 
-const double GaussInfo::TRIA6A_REF[12] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0, -1.0, 1.0, 0.0, -1.0, 0.0, 0.0};
+const double GaussInfo::TRIA6A_REF[12] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0, -1.0, 0.0, 0.0, -1.0, 0.0, 0.0};
 
 const double GaussInfo::TRIA6B_REF[12] = {0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.5, 0.0, 0.5, 0.5, 0.0, 0.5};
 
@@ -1325,7 +1325,7 @@ GaussInfo::tria6aInit()
         funValue[2] = 0.5 * (1.0 + gc[0]) * gc[0];
         funValue[3] = -1.0 * (1.0 + gc[1]) * (gc[0] + gc[1]);
         funValue[4] = -1.0 * (1.0 + gc[0]) * (gc[0] + gc[1]);
-        funValue[5] = (1.0 + gc[1]) * (1.0 + gc[1]);
+        funValue[5] = (1.0 + gc[0]) * (1.0 + gc[1]);
         SHAPE_FUN_MACRO_END;
 
         DEV_SHAPE_FUN_MACRO_BEGIN;
@@ -1345,8 +1345,8 @@ GaussInfo::tria6aInit()
         devFunValue[8] = -1.0 * (2 * gc[0] + gc[1] + 1.0);
         devFunValue[9] = -1.0 * (1.0 + gc[0]);
 
-        devFunValue[10] = 0.0;
-        devFunValue[11] = (2 * gc[1] + 2.0);
+        devFunValue[10] = 1.0 + gc[1];
+        devFunValue[11] = 1.0 + gc[0];
 
         DEV_SHAPE_FUN_MACRO_END;
 }
-- 
2.43.0


From 70169f3e186ccae91353df2421915239e5b5f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 043/148] fix: structured mesh node location uses the size of
 the node structure

---
 src/MEDCoupling/MEDCouplingStructuredMesh.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingStructuredMesh.cxx b/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
index a8e6a2f..a084ca6 100644
--- a/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
@@ -583,8 +583,7 @@ void
 MEDCouplingStructuredMesh::getReverseNodalConnectivity(DataArrayIdType *revNodal, DataArrayIdType *revNodalIndx) const
 {
     std::vector<mcIdType> ngs(getNodeGridStructure());
-    int dim(getSpaceDimension());
-    switch (dim)
+    switch (ngs.size())
     {
         case 1:
             return GetReverseNodalConnectivity1(ngs, revNodal, revNodalIndx);
@@ -1550,7 +1549,7 @@ MEDCouplingStructuredMesh::getNodeIdFromPos(mcIdType i, mcIdType j, mcIdType k)
 {
     mcIdType tmp[3] = {i, j, k};
     mcIdType tmp2[3];
-    mcIdType spaceDim(getSpaceDimension());
+    std::size_t spaceDim(getNodeGridStructure().size());
     getSplitNodeValues(tmp2);
     std::transform(tmp, tmp + spaceDim, tmp2, tmp, std::multiplies<mcIdType>());
     return std::accumulate(tmp, tmp + spaceDim, 0);
@@ -1627,9 +1626,8 @@ MEDCouplingStructuredMesh::getLocationFromCellId(mcIdType cellId) const
 std::vector<mcIdType>
 MEDCouplingStructuredMesh::getLocationFromNodeId(mcIdType nodeId) const
 {
-    int spaceDim(getSpaceDimension());
-    std::vector<mcIdType> ret(spaceDim);
     std::vector<mcIdType> struc(getNodeGridStructure());
+    std::vector<mcIdType> ret(struc.size());
     mcIdType nbNodes(std::accumulate(struc.begin(), struc.end(), 1, std::multiplies<mcIdType>()));
     if (nodeId < 0 || nodeId >= nbNodes)
     {
@@ -1639,7 +1637,7 @@ MEDCouplingStructuredMesh::getLocationFromNodeId(mcIdType nodeId) const
         throw INTERP_KERNEL::Exception(oss.str().c_str());
     }
     std::vector<mcIdType> spt(GetSplitVectFromStruct(struc));
-    GetPosFromId(nodeId, spaceDim, &spt[0], &ret[0]);
+    GetPosFromId(nodeId, (int)struc.size(), &spt[0], &ret[0]);
     return ret;
 }
 
-- 
2.43.0


From d920e980002ba672d95343905cbc6c54d568ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 044/148] fix: MEDCouplingIMesh::SpreadCoarseToFine 3D uses the
 Y factor along Y

---
 src/MEDCoupling/MEDCouplingIMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 13db0a9..c336da4 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -792,7 +792,7 @@ MEDCouplingIMesh::SpreadCoarseToFine(
                 fineLocInCoarse[0].first + coarseSt[0] * fineLocInCoarse[1].first +
                 coarseSt[0] * coarseSt[1] * fineLocInCoarse[2].first
             ),
-                fact0(facts[0]), fact1(facts[2]), fact2(facts[2]);
+                fact0(facts[0]), fact1(facts[1]), fact2(facts[2]);
             for (int k = 0; k < dims[2]; k++)
             {
                 for (mcIdType kfact = 0; kfact < fact2; kfact++)
-- 
2.43.0


From 32eb994d70e413dd55bc1c0fa3816202bbf07f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 045/148] fix: getCellsContainingPoint of structured meshes
 reports no cell for an outside point

---
 src/MEDCoupling/MEDCouplingCMesh.cxx           | 3 ++-
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx | 3 ++-
 src/MEDCoupling/MEDCouplingIMesh.cxx           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCMesh.cxx b/src/MEDCoupling/MEDCouplingCMesh.cxx
index 66dbff6..20c7520 100644
--- a/src/MEDCoupling/MEDCouplingCMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCMesh.cxx
@@ -699,7 +699,8 @@ void
 MEDCouplingCMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret != -1)
+        elts.push_back(ret);
 }
 
 void
diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index b17f08c..7196b3f 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -860,7 +860,8 @@ void
 MEDCouplingCurveLinearMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret != -1)
+        elts.push_back(ret);
 }
 
 void
diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index c336da4..43e5b4a 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -1458,7 +1458,8 @@ void
 MEDCouplingIMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret != -1)
+        elts.push_back(ret);
 }
 
 void
-- 
2.43.0


From 04e02e9b743c58d018e354edfd7beba1f9453970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 046/148] fix: MEDCouplingIMesh::getCellContainingPoint does
 not truncate toward zero

---
 src/MEDCoupling/MEDCouplingIMesh.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 43e5b4a..9d06cdd 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -27,6 +27,7 @@
 #include <algorithm>
 #include <sstream>
 #include <numeric>
+#include <cmath>
 
 using namespace MEDCoupling;
 
@@ -1442,7 +1443,11 @@ MEDCouplingIMesh::getCellContainingPoint(const double *pos, double eps) const
     {
         mcIdType nbOfCells(_structure[i] - 1);
         double ref(pos[i]);
-        mcIdType tmp(ToIdType((ref - _origin[i]) / _dxyz[i]));
+        mcIdType tmp(ToIdType(std::floor((ref - _origin[i]) / _dxyz[i])));
+        if (tmp == -1 && std::abs(ref - _origin[i]) < eps)
+            tmp = 0;
+        if (tmp == nbOfCells && std::abs(ref - (_origin[i] + (double)nbOfCells * _dxyz[i])) < eps)
+            tmp = nbOfCells - 1;
         if (tmp >= 0 && tmp < nbOfCells)
         {
             ret += coeff * tmp;
-- 
2.43.0


From ab9c30afcaa9a94825dbbf284dc8c0af2691ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 047/148] fix: getValueOnPos is available on every structured
 mesh

---
 src/MEDCoupling/MEDCouplingFieldDiscretization.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
index 7acc2d4..10dca1c 100644
--- a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
@@ -1069,7 +1069,7 @@ MEDCouplingFieldDiscretizationP0::getValueOnPos(
     const DataArrayDouble *arr, const MEDCouplingMesh *mesh, mcIdType i, mcIdType j, mcIdType k, double *res
 ) const
 {
-    const MEDCouplingCMesh *meshC = dynamic_cast<const MEDCouplingCMesh *>(mesh);
+    const MEDCouplingStructuredMesh *meshC = dynamic_cast<const MEDCouplingStructuredMesh *>(mesh);
     if (!meshC)
         throw INTERP_KERNEL::Exception("P0::getValueOnPos is only accessible for structured meshes !");
     mcIdType id = meshC->getCellIdFromPos(i, j, k);
@@ -1477,7 +1477,7 @@ MEDCouplingFieldDiscretizationOnNodes::getValueOnPos(
     const DataArrayDouble *arr, const MEDCouplingMesh *mesh, mcIdType i, mcIdType j, mcIdType k, double *res
 ) const
 {
-    const MEDCouplingCMesh *meshC = dynamic_cast<const MEDCouplingCMesh *>(mesh);
+    const MEDCouplingStructuredMesh *meshC = dynamic_cast<const MEDCouplingStructuredMesh *>(mesh);
     if (!meshC)
         throw INTERP_KERNEL::Exception("OnNodes::getValueOnPos(i,j,k) is only accessible for structured meshes !");
     mcIdType id = meshC->getNodeIdFromPos(i, j, k);
-- 
2.43.0


From 5f60a9afc16f7a99ff51993468b87f1e9adc30b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 048/148] fix:
 MEDCouplingCurveLinearMesh::getCellContainingPoint locates the cell that
 contains the point

---
 .../MEDCouplingCurveLinearMesh.cxx            | 251 +-----------------
 1 file changed, 5 insertions(+), 246 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index 7196b3f..ec6dcc2 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -22,9 +22,9 @@
 #include "MEDCouplingPointSet.hxx"
 #include "MEDCouplingMemArray.hxx"
 #include "MEDCouplingFieldDouble.hxx"
+#include "MEDCouplingUMesh.hxx"
 
 #include "VolSurfUser.txx"
-#include "PointLocatorAlgos.txx"
 
 #include <functional>
 #include <algorithm>
@@ -604,256 +604,15 @@ MEDCouplingCurveLinearMesh::buildOrthogonalField() const
     return ret;
 }
 
-/// @cond INTERNAL
-
-namespace MEDCoupling
-{
-template <const int SPACEDIMM>
-class DummyClsMCL
-{
-   public:
-    static const int MY_SPACEDIM = SPACEDIMM;
-    static const int MY_MESHDIM = 8;
-    typedef mcIdType MyConnType;
-    static const INTERP_KERNEL::NumberingPolicy My_numPol = INTERP_KERNEL::ALL_C_MODE;
-    // begin
-    // useless, but for windows compilation ...
-    const double *getCoordinatesPtr() const { return 0; }
-    const mcIdType *getConnectivityPtr() const { return 0; }
-    const mcIdType *getConnectivityIndexPtr() const { return 0; }
-    INTERP_KERNEL::NormalizedCellType getTypeOfElement(mcIdType) const { return (INTERP_KERNEL::NormalizedCellType)0; }
-    // end
-};
-}  // namespace MEDCoupling
-
-/// @endcond
-
 mcIdType
 MEDCouplingCurveLinearMesh::getCellContainingPoint(const double *pos, double eps) const
 {
     checkConsistencyLight();
-    int spaceDim = getSpaceDimension();
-    const double *coords = _coords->getConstPointer();
-    mcIdType nodeId = -1;
-    _coords->distanceToTuple(pos, pos + spaceDim, nodeId);
-    if (nodeId < 0)
-        throw INTERP_KERNEL::Exception("MEDCouplingCurveLinearMesh::getCellContainingPoint : internal problem 1 !");
-    mcIdType conn[8];
-    mcIdType nbOfNodes = getNumberOfNodes();
-    if (nbOfNodes == 1)
+    if (getNumberOfNodes() == 1)
         throw INTERP_KERNEL::Exception("MEDCouplingCurveLinearMesh::getCellContainingPoint : No cells in this !");
-    switch (getMeshDimension())
-    {
-        case 1:
-            if (spaceDim == 1)
-            {
-                if (nodeId > 0)
-                {
-                    conn[0] = nodeId - 1;
-                    conn[1] = nodeId;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<1> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_SEG2, coords, conn, 2, eps
-                        ))
-                        return nodeId - 1;
-                }
-                if (nodeId < nbOfNodes - 1)
-                {
-                    conn[0] = nodeId;
-                    conn[1] = nodeId + 1;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<1> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_SEG2, coords, conn, 2, eps
-                        ))
-                        return nodeId;
-                }
-            }
-            break;
-        case 2:
-            if (spaceDim == 2)
-            {
-                mcIdType ny = nodeId / _structure[0], nx = nodeId - ny * _structure[0];
-                if (nx > 0 && ny > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1);
-                    conn[1] = nx - 1 + _structure[0] * ny;
-                    conn[2] = nx + _structure[0] * ny;
-                    conn[3] = nx + _structure[0] * (ny - 1);
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0];
-                }
-                if (nx < _structure[0] - 1 && ny > 0)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1);
-                    conn[1] = nx + _structure[0] * ny;
-                    conn[2] = nx + 1 + _structure[0] * ny;
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1);
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0];
-                }
-                if (nx > 0 && ny < _structure[1] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny;
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1);
-                    conn[2] = nx + _structure[0] * (ny + 1);
-                    conn[3] = nx + _structure[0] * ny;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx - 1 + ny * _structure[0];
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1)
-                {
-                    conn[0] = nx + _structure[0] * ny;
-                    conn[1] = nx + _structure[0] * (ny + 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1);
-                    conn[3] = nx + 1 + _structure[0] * ny;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx + ny * _structure[0];
-                }
-            }
-            break;
-        case 3:
-        {
-            if (spaceDim == 3)
-            {
-                mcIdType nY = _structure[0] * _structure[1];
-                mcIdType nz = nodeId / _structure[1];
-                mcIdType ny = (nodeId - nz * nY) / _structure[0];
-                mcIdType nx = (nodeId - nz * nY) - _structure[0] * ny;
-                if (nx > 0 && ny > 0 && nz > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[2] * ny + nY * (nz - 1);
-                    conn[2] = nx + _structure[2] * ny + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx < _structure[0] - 1 && ny > 0 && nz > 0)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx > 0 && ny < _structure[1] - 1 && nz > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + ny * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1 && nz > 0)
-                {
-                    conn[0] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * ny + nY * nz;
-                    conn[5] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + ny * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx > 0 && ny > 0 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[2] * ny + nY * (nz - 1);
-                    conn[2] = nx + _structure[2] * ny + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0] + nz * nY;
-                }
-                if (nx < _structure[0] - 1 && ny > 0 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0] + nz * nY;
-                }
-                if (nx > 0 && ny < _structure[1] - 1 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + ny * _structure[0] + nz * nY;
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * ny + nY * nz;
-                    conn[5] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + ny * _structure[0] + nz * nY;
-                }
-            }
-        }
-        break;
-        default:
-            throw INTERP_KERNEL::Exception(
-                "MEDCouplingCurveLinearMesh::getCellContainingPoint : mesh dimension managed are 1, 2 or 3 !"
-            );
-    }
-    return 0;
+    // the closest node is not always a node of the cell containing the point
+    MCAuto<MEDCouplingUMesh> m(buildUnstructured());
+    return m->getCellContainingPoint(pos, eps);
 }
 
 void
-- 
2.43.0


From de77f2450a542c0c0ffcc5f87a6107e611540564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 049/148] fix:
 MEDCouplingCurveLinearMesh::computeIsoBarycenterOfNodesPerCell returns
 iso-barycentres

---
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index ec6dcc2..077b38a 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -738,7 +738,8 @@ MEDCouplingCurveLinearMesh::computeCellCenterOfMass() const
 DataArrayDouble *
 MEDCouplingCurveLinearMesh::computeIsoBarycenterOfNodesPerCell() const
 {
-    return MEDCouplingCurveLinearMesh::computeCellCenterOfMass();
+    MCAuto<MEDCouplingUMesh> um(buildUnstructured());
+    return um->computeIsoBarycenterOfNodesPerCell();
 }
 
 /*!
-- 
2.43.0


From b223f8d478b060e1b6ba972fc978dc987aab2548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 050/148] fix: MEDCouplingCurveLinearMesh::buildOrthogonalField
 gives the normals of a surface in 3D

---
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index 077b38a..8da7e14 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -587,6 +587,13 @@ MEDCouplingCurveLinearMesh::buildOrthogonalField() const
 {
     if (getMeshDimension() != 2)
         throw INTERP_KERNEL::Exception("Expected a cmesh with meshDim == 2 !");
+    if (getSpaceDimension() == 3)
+    {
+        MCAuto<MEDCouplingUMesh> um(buildUnstructured());
+        MCAuto<MEDCouplingFieldDouble> ret(um->buildOrthogonalField());
+        ret->setMesh(this);
+        return ret.retn();
+    }
     MEDCouplingFieldDouble *ret = MEDCouplingFieldDouble::New(ON_CELLS, NO_TIME);
     DataArrayDouble *array = DataArrayDouble::New();
     mcIdType nbOfCells = getNumberOfCells();
-- 
2.43.0


From 254d022d6185897179f64ed3b21d584dd1b57f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 051/148] fix:
 MEDCouplingCurveLinearMesh::buildStructuredSubPart works on the structure of
 the mesh

---
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index 8da7e14..fab364c 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -381,12 +381,12 @@ MEDCouplingStructuredMesh *
 MEDCouplingCurveLinearMesh::buildStructuredSubPart(const std::vector<std::pair<mcIdType, mcIdType> > &cellPart) const
 {
     checkConsistencyLight();
-    int dim(getSpaceDimension());
-    std::vector<mcIdType> dims(getMeshDimension());
+    int dim(getMeshDimension());
+    std::vector<mcIdType> dims(dim);
     if (dim != ToIdType(cellPart.size()))
     {
         std::ostringstream oss;
-        oss << "MEDCouplingCurveLinearMesh::buildStructuredSubPart : the space dimension is " << dim
+        oss << "MEDCouplingCurveLinearMesh::buildStructuredSubPart : the mesh dimension is " << dim
             << " and cell part size is " << cellPart.size() << " !";
         throw INTERP_KERNEL::Exception(oss.str().c_str());
     }
-- 
2.43.0


From 41c946bb9c4edaf207a74190b6fc7c784cccbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 052/148] fix: DataArrayDouble::applyFuncFast32/64 refuse
 formulas with several variables

---
 src/MEDCoupling/MEDCouplingMemArray.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.cxx b/src/MEDCoupling/MEDCouplingMemArray.cxx
index a6872a4..b95e7ec 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.cxx
+++ b/src/MEDCoupling/MEDCouplingMemArray.cxx
@@ -3465,6 +3465,12 @@ DataArrayDouble::applyFuncFast32(const std::string &func)
     checkAllocated();
     INTERP_KERNEL::ExprParser expr(func);
     expr.parse();
+    std::set<std::string> vars;
+    expr.getSetOfVars(vars);
+    if (vars.size() > 1)
+        throw INTERP_KERNEL::Exception(
+            "DataArrayDouble::applyFuncFast32 : this method works only with at most one var func expression !"
+        );
     char *funcStr = expr.compileX86();
     MYFUNCPTR funcPtr;
     *((void **)&funcPtr) = funcStr;  // he he...
@@ -3483,6 +3489,12 @@ DataArrayDouble::applyFuncFast64(const std::string &func)
     checkAllocated();
     INTERP_KERNEL::ExprParser expr(func);
     expr.parse();
+    std::set<std::string> vars;
+    expr.getSetOfVars(vars);
+    if (vars.size() > 1)
+        throw INTERP_KERNEL::Exception(
+            "DataArrayDouble::applyFuncFast64 : this method works only with at most one var func expression !"
+        );
     char *funcStr = expr.compileX86_64();
     MYFUNCPTR funcPtr;
     *((void **)&funcPtr) = funcStr;  // he he...
-- 
2.43.0


From 9c802d9b0e6a0d426b203ee71f2c884321f66c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 053/148] fix: DataArrayDouble::applyFuncNamedCompo reports the
 failing tuple without reading out of the array

---
 src/MEDCoupling/MEDCouplingMemArray.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.cxx b/src/MEDCoupling/MEDCouplingMemArray.cxx
index b95e7ec..2e3f7a5 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.cxx
+++ b/src/MEDCoupling/MEDCouplingMemArray.cxx
@@ -3447,9 +3447,7 @@ DataArrayDouble::applyFuncNamedCompo(
                 {
                     std::ostringstream oss;
                     oss << "For tuple # " << i << " with value (";
-                    std::copy(
-                        ptr + oldNbOfComp * i, ptr + oldNbOfComp * (i + 1), std::ostream_iterator<double>(oss, ", ")
-                    );
+                    std::copy(ptr, ptr + oldNbOfComp, std::ostream_iterator<double>(oss, ", "));
                     oss << ") : Evaluation of function failed !" << e.what();
                     throw INTERP_KERNEL::Exception(oss.str().c_str());
                 }
-- 
2.43.0


From 328dc7d58ce607701f5974d496c103b11d30a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 054/148] fix: constant formulas honour isSafe in
 DataArrayDouble::applyFunc and applyFuncOnThis

---
 src/MEDCoupling/MEDCouplingMemArray.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.cxx b/src/MEDCoupling/MEDCouplingMemArray.cxx
index 2e3f7a5..e532de6 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.cxx
+++ b/src/MEDCoupling/MEDCouplingMemArray.cxx
@@ -3199,8 +3199,10 @@ DataArrayDouble::applyFunc(const std::string &func, bool isSafe) const
     if (vars.empty())
     {
         expr.prepareFastEvaluator();
+        std::vector<double> stck;
+        isSafe ? expr.evaluateDoubleInternalSafe(stck) : expr.evaluateDoubleInternal(stck);
         newArr->rearrange(1);
-        newArr->fillWithValue(expr.evaluateDouble());
+        newArr->fillWithValue(stck.back());
         newArr->rearrange(nbOfComp);
         return newArr.retn();
     }
@@ -3288,9 +3290,11 @@ DataArrayDouble::applyFuncOnThis(const std::string &func, bool isSafe)
     if (vars.empty())
     {
         expr.prepareFastEvaluator();
+        std::vector<double> stck;
+        isSafe ? expr.evaluateDoubleInternalSafe(stck) : expr.evaluateDoubleInternal(stck);
         std::vector<std::string> compInfo(getInfoOnComponents());
         rearrange(1);
-        fillWithValue(expr.evaluateDouble());
+        fillWithValue(stck.back());
         rearrange(nbOfComp);
         setInfoOnComponents(compInfo);
         return;
-- 
2.43.0


From e14e44149c27f58f729c7de72f5c72c7b83a6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 055/148] fix: distance from a point to a triangle in the
 regions of the vertices 2

---
 src/INTERP_KERNEL/VolSurfUser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/VolSurfUser.cxx b/src/INTERP_KERNEL/VolSurfUser.cxx
index 5498fc4..f4059f4 100644
--- a/src/INTERP_KERNEL/VolSurfUser.cxx
+++ b/src/INTERP_KERNEL/VolSurfUser.cxx
@@ -121,7 +121,7 @@ _HelperDistancePtToTri3D_2(
     const double a01, const double aXX, const double aYY, const double bX, const double bY, const double c
 )
 {
-    double tmp0 = a01 + bX, tmp1 = aXX + bY;
+    double tmp0 = a01 + bX, tmp1 = aYY + bY;
     if (tmp1 > tmp0)
     {
         double numer = tmp1 - tmp0, denom = aXX - 2 * a01 + aYY;
-- 
2.43.0


From aea7e8c399bae8faba9053fe2f34913c2a01d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 056/148] fix: compiled formulas apply each operator to the
 right operands

---
 .../ExprEval/InterpKernelExprParser.cxx       | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index 72ea695..d2574b2 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -1191,31 +1191,41 @@ ExprParser::compileX86_64() const
 void
 ExprParser::compileX86LowLev(std::vector<std::string> &ass) const
 {
+    std::vector<Function *>::const_iterator iter2 = _func_btw_sub_expr.begin();
     if (_leaf)
         _leaf->compileX86(ass);
     else
     {
-        for (std::vector<ExprParser>::const_iterator iter = _sub_expr.begin(); iter != _sub_expr.end(); iter++)
+        // operands are stored in reverse order (see reverseThis). Each operator is applied as soon as its operands are ready.
+        for (std::vector<ExprParser>::const_reverse_iterator iter = _sub_expr.rbegin(); iter != _sub_expr.rend();
+             iter++)
+        {
             (*iter).compileX86LowLev(ass);
+            if (iter != _sub_expr.rbegin() && iter2 != _func_btw_sub_expr.end())
+                (*iter2++)->operateX86(ass);
+        }
     }
-    for (std::vector<Function *>::const_iterator iter2 = _func_btw_sub_expr.begin(); iter2 != _func_btw_sub_expr.end();
-         iter2++)
-        (*iter2)->operateX86(ass);
+    for (; iter2 != _func_btw_sub_expr.end(); iter2++) (*iter2)->operateX86(ass);
 }
 
 void
 ExprParser::compileX86_64LowLev(std::vector<std::string> &ass) const
 {
+    std::vector<Function *>::const_iterator iter2 = _func_btw_sub_expr.begin();
     if (_leaf)
         _leaf->compileX86_64(ass);
     else
     {
-        for (std::vector<ExprParser>::const_iterator iter = _sub_expr.begin(); iter != _sub_expr.end(); iter++)
+        // operands are stored in reverse order (see reverseThis). Each operator is applied as soon as its operands are ready.
+        for (std::vector<ExprParser>::const_reverse_iterator iter = _sub_expr.rbegin(); iter != _sub_expr.rend();
+             iter++)
+        {
             (*iter).compileX86_64LowLev(ass);
+            if (iter != _sub_expr.rbegin() && iter2 != _func_btw_sub_expr.end())
+                (*iter2++)->operateX86(ass);
+        }
     }
-    for (std::vector<Function *>::const_iterator iter2 = _func_btw_sub_expr.begin(); iter2 != _func_btw_sub_expr.end();
-         iter2++)
-        (*iter2)->operateX86(ass);
+    for (; iter2 != _func_btw_sub_expr.end(); iter2++) (*iter2)->operateX86(ass);
 }
 
 double
-- 
2.43.0


From d98946d7dcf06166f1b0afaa871bc92b5f4b6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:09 +0000
Subject: [PATCH 057/148] fix: compiled formulas do not leak an x87 register
 per evaluation

---
 .../ExprEval/InterpKernelAsmX86.cxx           | 21 ++++++++++++++++++-
 .../ExprEval/InterpKernelAsmX86.hxx           |  3 ++-
 .../ExprEval/InterpKernelExprParser.cxx       |  2 +-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx
index 7fef112..359f5ef 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx
@@ -51,7 +51,8 @@ const char *INTERP_KERNEL::AsmX86::OPS[NB_OF_OPS] = {
     "ret",
     "leave",
     "movsd",
-    "fst"
+    "fst",
+    "fstp"
 };
 
 std::vector<char>
@@ -164,6 +165,9 @@ INTERP_KERNEL::AsmX86::convertOneInstructionInML(const std::string &inst, std::v
         case 18:
             convertFst(param, ml);
             break;
+        case 19:
+            convertFstp(param, ml);
+            break;
         default:
         {
             std::ostringstream oss;
@@ -525,6 +529,21 @@ INTERP_KERNEL::AsmX86::convertFst(const std::string &inst, std::vector<char> &ml
     // tony
 }
 
+void
+INTERP_KERNEL::AsmX86::convertFstp(const std::string &inst, std::vector<char> &ml)
+{
+    const char ASM1[] = "qword [rsp]";
+    const unsigned char ML1[3] = {0xdd, 0x1c, 0x24};
+    if (inst == ASM1)
+    {
+        ml.insert(ml.end(), ML1, ML1 + sizeof(ML1));
+        return;
+    }
+    std::ostringstream oss;
+    oss << "not recognized instruction fstp : " << inst;
+    throw INTERP_KERNEL::Exception(oss.str().c_str());
+}
+
 void
 INTERP_KERNEL::AsmX86::appendAddress(const std::string &addr, int nbOfByte, std::vector<char> &ml)
 {
diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.hxx b/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.hxx
index d200a77..baa529c 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.hxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.hxx
@@ -58,12 +58,13 @@ class AsmX86
     static void convertLeave(const std::string &inst, std::vector<char> &ml);
     static void convertMovsd(const std::string &inst, std::vector<char> &ml);
     static void convertFst(const std::string &inst, std::vector<char> &ml);
+    static void convertFstp(const std::string &inst, std::vector<char> &ml);
     //
     static void convertMovToEsp(const std::string &inst1, const std::string &inst2, std::vector<char> &ml);
     static void appendAddress(const std::string &addr, int nbOfByte, std::vector<char> &ml);
 
    private:
-    static const int NB_OF_OPS = 19;
+    static const int NB_OF_OPS = 20;
     static const char *OPS[NB_OF_OPS];
 };
 }  // namespace INTERP_KERNEL
diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index d2574b2..ffb810b 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -1171,7 +1171,7 @@ ExprParser::compileX86_64() const
     ass.push_back("mov rbp,rsp");
     compileX86_64LowLev(ass);
     ass.push_back("sub rsp,8");
-    ass.push_back("fst qword [rsp]");
+    ass.push_back("fstp qword [rsp]");
     ass.push_back("movsd xmm0,[rsp]");
     ass.push_back("add rsp,8");
     ass.push_back("leave");
-- 
2.43.0


From 65ee8e69e006ce4ace8200de3ca95e89cdd71467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 058/148] fix: a formula without operand is rejected instead of
 being dereferenced

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index ffb810b..d8f4288 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -547,6 +547,7 @@ ExprParser::reverseThis()
 ExprParserOfEval
 ExprParser::convertMeTo() const
 {
+    checkForEvaluation();
     std::size_t sz(_sub_expr.size());
     std::vector<ExprParserOfEval> subExpr(sz);
     for (std::size_t i = 0; i < sz; i++) subExpr[i] = _sub_expr[i].convertMeTo();
@@ -1143,6 +1144,7 @@ ExprParser::LocateError(std::ostream &stringToDisp, const std::string &srcOfErr,
 char *
 ExprParser::compileX86() const
 {
+    checkForEvaluation();
     std::vector<std::string> ass;
     // need in stack
     ass.push_back("push ebp");
@@ -1165,6 +1167,7 @@ ExprParser::compileX86() const
 char *
 ExprParser::compileX86_64() const
 {
+    checkForEvaluation();
     std::vector<std::string> ass;
     // need in stack
     ass.push_back("push rbp");
-- 
2.43.0


From e46aabb4fb83f558cb3d94e22a76a1ca2f08ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 059/148] fix: numbers in formulas are delimited correctly
 beyond ten numbers and before other characters

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index d8f4288..fa6968c 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -1027,7 +1027,6 @@ ExprParser::fillValuesInExpr(std::vector<double> &valuesInExpr)
 {
     const char FIGURES[] = "0123456789";
     const std::string other("+-*^/(<>,");
-    std::size_t lgth = _expr.length();
     int id = 0, delta;
     for (std::size_t pos = 0; pos != std::string::npos; id++)
     {
@@ -1060,7 +1059,7 @@ ExprParser::fillValuesInExpr(std::vector<double> &valuesInExpr)
         }
         if (_expr[pos3] == '.')
             pos3++;
-        if (pos3 < lgth)
+        if (pos3 < _expr.length())
         {
             std::size_t pos4 = _expr.find_first_not_of(FIGURES, pos3, 10);
             if (pos4 == std::string::npos)
@@ -1078,11 +1077,11 @@ ExprParser::fillValuesInExpr(std::vector<double> &valuesInExpr)
                 }
                 else
                 {
-                    if (++pos4 < lgth)
+                    if (++pos4 < _expr.length())
                     {
                         if (_expr[pos4] == '+' || _expr[pos4] == '-')
                             pos4++;
-                        if (pos4 >= lgth)
+                        if (pos4 >= _expr.length())
                         {  //"x+1223334.223e+" or "1223334.223E-"
                             std::ostringstream oss;
                             oss << "Invalid expr : float number at the end of expr is invalid lacking number after "
-- 
2.43.0


From a7cc8e594870665ea219fe6171ce5bcfdd330d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:23 +0000
Subject: [PATCH 060/148] fix: a number followed by an unexpected character is
 rejected in formulas

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index fa6968c..47b8e6e 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -1002,6 +1002,12 @@ ExprParser::ReplaceAndTraduce(std::string &expr, int id, std::size_t bg, std::si
     std::ostringstream oss;
     std::size_t end2 = end != std::string::npos ? end - bg : end;
     std::string tmp = expr.substr(bg, end2);
+    if (end != std::string::npos && std::string("+-*/^)<>,").find(expr[end]) == std::string::npos)
+    {
+        oss << "Invalid expr : float number \"" << tmp << "\" is followed by an unexpected character in \"" << expr
+            << "\"";
+        throw INTERP_KERNEL::Exception(oss.str().c_str());
+    }
     stream.str(tmp);
     double ret = std::numeric_limits<double>::max();
     stream >> ret;
-- 
2.43.0


From f3fb6890be070e3d1c0ea66fa57a500140e03269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:23 +0000
Subject: [PATCH 061/148] fix: a sign in front of a power applies to the power
 in formulas

---
 .../ExprEval/InterpKernelExprParser.cxx         | 17 +++++++++++++++++
 .../ExprEval/InterpKernelExprParser.hxx         |  1 +
 2 files changed, 18 insertions(+)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index 47b8e6e..bfb8c27 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -852,6 +852,21 @@ ExprParser::parseForMulDiv()
     }
 }
 
+/*!
+ * A sign in front of a power or of a function call ("-x^2", "-cos(x)") applies to the whole power / call.
+ */
+void
+ExprParser::parseForSign()
+{
+    std::size_t pos = _expr.find_first_not_of("+-", 0, 2);
+    if (pos == 0 || pos == std::string::npos)
+        return;
+    _sub_expr.push_back(ExprParser(_expr.substr(pos).c_str(), this));
+    if (std::count(_expr.begin(), _expr.begin() + pos, '-') % 2)
+        _func_btw_sub_expr.push_back(FunctionsFactory::buildUnaryFuncFromString("-"));
+    _is_parsing_ok = true;
+}
+
 void
 ExprParser::parseForPow()
 {
@@ -942,6 +957,8 @@ ExprParser::simplify()
             if (!_is_parsing_ok)
             {
                 parseForMulDiv();
+                if (!_is_parsing_ok)
+                    parseForSign();
                 if (!_is_parsing_ok)
                     parseForPow();
             }
diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.hxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.hxx
index f591219..4139b7b 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.hxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.hxx
@@ -199,6 +199,7 @@ class ExprParser
     void parseForCmp();
     void parseForAddMin();
     void parseForMulDiv();
+    void parseForSign();
     void parseForPow();
     void parseDeeper();
     bool simplify();
-- 
2.43.0


From 1550b2d77072a041934bfcf567e66ab1f4bfece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 062/148] fix: comparisons nested in parentheses are not split
 at the top level in formulas

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index bfb8c27..3549794 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -678,6 +678,11 @@ ExprParser::parseForCmp()
             case '>':
             case '<':
             {
+                if (curLevel != 0)
+                {
+                    curPart += *iter;
+                    break;
+                }
                 isParsingSucceed = true;
                 if (!curPart.empty())
                 {
-- 
2.43.0


From de37d8b1a3f6079c5de58b47975af20d6082a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 063/148] fix: a sign without operand is rejected in formulas

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index 3549794..e5cca62 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -648,6 +648,12 @@ bool
 ExprParser::tryToInterpALeaf()
 {
     std::size_t pos = _expr.find_first_not_of("+-", 0, 2);
+    if (pos == std::string::npos)
+    {
+        std::ostringstream errMsg;
+        errMsg << EXPR_PARSE_ERR_MSG << "Error operand expected : \"" << _expr << "\"";
+        throw INTERP_KERNEL::Exception(errMsg.str().c_str());
+    }
     std::string minimizedExpr = _expr.substr(pos);
     std::size_t pos2 = minimizedExpr.find_first_of("+-*/^()<>", 0, 9);
     if (pos2 != std::string::npos)
-- 
2.43.0


From 0b14c84d84c99158784bbf485aa8df289b09a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 064/148] fix: parameters of nested functions are split at
 their own level in formulas

---
 .../ExprEval/InterpKernelExprParser.cxx       | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index e5cca62..9e0078b 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -611,7 +611,27 @@ ExprParser::parseUnaryFunc()
     if (pos2 != std::string::npos && pos3 != std::string::npos)
         return;  // Bracket group is not alone, can't conclude not recursively.
     std::string newExp2 = _expr.substr(pos1 + 1, _expr.length() - pos1 - 2);
-    std::size_t nbOfParamsInFunc = std::count(newExp2.begin(), newExp2.end(), ',') + 1;
+    // commas inside nested parenthesis belong to the nested functions
+    std::vector<std::string> params(1);
+    int curLevel = 0;
+    for (std::string::const_iterator iter = newExp2.begin(); iter != newExp2.end(); iter++)
+    {
+        if (*iter == '(')
+            curLevel++;
+        else if (*iter == ')')
+            curLevel--;
+        if (*iter == ',' && curLevel == 0)
+            params.push_back(std::string());
+        else
+            params.back() += *iter;
+    }
+    std::size_t nbOfParamsInFunc = params.size();
+    if (pos3 == std::string::npos && nbOfParamsInFunc > 1)
+    {
+        std::ostringstream errMsg;
+        errMsg << EXPR_PARSE_ERR_MSG << "Error list of parameters without function : " << _expr;
+        throw INTERP_KERNEL::Exception(errMsg.str().c_str());
+    }
     if (pos3 != std::string::npos)
         _func_btw_sub_expr.push_back(FunctionsFactory::buildFuncFromString(funcName.c_str(), (int)nbOfParamsInFunc));
     else
@@ -625,17 +645,7 @@ ExprParser::parseUnaryFunc()
             _func_btw_sub_expr.push_back(FunctionsFactory::buildFuncFromString(tmp, (int)nbOfParamsInFunc));
         }
     }
-    std::size_t pos6 = 0;
-    for (std::size_t i = 0; i < nbOfParamsInFunc; i++)
-    {
-        std::size_t pos5 = newExp2.find_first_of(',', pos6);
-        std::size_t len = std::string::npos;
-        if (pos5 != std::string::npos)
-            len = pos5 - pos6;
-        std::string newExp3 = newExp2.substr(pos6, len);
-        _sub_expr.push_back(ExprParser(newExp3.c_str(), this));
-        pos6 = pos5 + 1;
-    }
+    for (std::size_t i = 0; i < nbOfParamsInFunc; i++) _sub_expr.push_back(ExprParser(params[i].c_str(), this));
     _is_parsing_ok = true;
 }
 
-- 
2.43.0


From 5576f06dc4d235c81be0d50c9f95e3faa9768699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 065/148] fix: badly formed numbers are rejected in formulas

---
 src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
index 9e0078b..4f41add 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelExprParser.cxx
@@ -77,7 +77,7 @@ LeafExprVal::replaceValues(const std::vector<double> &valuesInExpr)
 {
     int pos = (int)_value;
     int lgth = (int)valuesInExpr.size();
-    if (pos >= lgth || pos < 0)
+    if (pos >= lgth || pos < 0 || (double)pos != _value)
         throw INTERP_KERNEL::Exception(
             "LeafExprVal::replaceValues : Big Problem detected! Send a mail to Salome support with expression."
         );
-- 
2.43.0


From d806ddb1910cfeceefb1b8e6c442a311f00a67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 066/148] fix: constants of compiled formulas keep their 32 low
 bits

---
 src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx b/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx
index 359f5ef..07054e1 100644
--- a/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx
+++ b/src/INTERP_KERNEL/ExprEval/InterpKernelAsmX86.cxx
@@ -547,7 +547,7 @@ INTERP_KERNEL::AsmX86::convertFstp(const std::string &inst, std::vector<char> &m
 void
 INTERP_KERNEL::AsmX86::appendAddress(const std::string &addr, int nbOfByte, std::vector<char> &ml)
 {
-    int i, j;
+    unsigned int i, j;
     char v;
     std::istringstream iss(addr);
     if (addr.length() > 2)
-- 
2.43.0


From 2109332b9c0e62a50067e275557459e41c674dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 067/148] fix: BBTreeClosest does not reuse the candidates of a
 previous query

---
 src/INTERP_KERNEL/BBTreeClosest.txx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/INTERP_KERNEL/BBTreeClosest.txx b/src/INTERP_KERNEL/BBTreeClosest.txx
index 673021f..2f00d75 100644
--- a/src/INTERP_KERNEL/BBTreeClosest.txx
+++ b/src/INTERP_KERNEL/BBTreeClosest.txx
@@ -412,6 +412,7 @@ class BBTreeClosest : public BBTreeBaseBase<dim, ConnType, 15, 12, BBTreeClosest
             double ret(std::numeric_limits<double>::max());
             const double *bbptr(this->getBBoxData());
             _min = std::numeric_limits<double>::max();
+            _candidates.clear();  // candidates of a previous point may remain if filter did not reach this
             for (auto elem : this->getElements())
             {
                 double zeMin, zeMax;
-- 
2.43.0


From 5ea61f9e602726a930297cdff29ed626727d3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 068/148] fix: BBTreeClosest deserialisation reads the elements
 data

---
 src/INTERP_KERNEL/BBTreeClosest.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/BBTreeClosest.txx b/src/INTERP_KERNEL/BBTreeClosest.txx
index 2f00d75..1be5f65 100644
--- a/src/INTERP_KERNEL/BBTreeClosest.txx
+++ b/src/INTERP_KERNEL/BBTreeClosest.txx
@@ -141,7 +141,7 @@ class BBTreeClosest : public BBTreeBaseBase<dim, ConnType, 15, 12, BBTreeClosest
         {
             ConnType sz(elemsData[elemsDataPt++]);
             this->_elems.insert(
-                this->_elems.end(), elemsData.cbegin() + structurePt, elemsData.cbegin() + structurePt + sz
+                this->_elems.end(), elemsData.cbegin() + elemsDataPt, elemsData.cbegin() + elemsDataPt + sz
             );
             elemsDataPt += sz;
             return;
-- 
2.43.0


From 194916022782449c59ffc8193c382e1811c3a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 069/148] fix: getDifferentArrays of DataArrayDoubles returned
 a list sized by the number of arrays, not of fields

---
 src/MEDCoupling_Swig/MEDCouplingCommon.i | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 123bcd3..bdd4446 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -5413,7 +5413,7 @@ namespace MEDCoupling
            std::vector<DataArrayDouble *> ms=self->getDifferentArrays(refs);
            std::size_t sz=ms.size();
            PyObject *res = PyList_New(sz);
-           PyObject *res2 = PyList_New(sz);
+           PyObject *res2 = PyList_New(refs.size());
            for(std::size_t i=0;i<sz;i++)
              {
                if(ms[i])
@@ -5425,8 +5425,9 @@ namespace MEDCoupling
                  {
                    PyList_SetItem(res,i,SWIG_NewPointerObj(SWIG_as_voidptr(0),SWIGTYPE_p_MEDCoupling__DataArrayDouble, 0 ));
                  }
-               PyList_SetItem(res2,i,convertIntArrToPyList2(refs[i]));
              }
+           for(std::size_t i=0;i<refs.size();i++)
+             PyList_SetItem(res2,i,convertIntArrToPyList2(refs[i]));
            //
            PyObject *ret=PyTuple_New(2);
            PyTuple_SetItem(ret,0,res);
-- 
2.43.0


From 16a951db97adafdf61ce7f414fc8353e37eee273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 070/148] fix: getMaxValue2/getMinValue2 of a LINEAR_TIME field
 mixed the two arrays

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index d11f06b..07d03cc 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -648,10 +648,9 @@ MEDCouplingFieldDouble::getMaxValue2(DataArrayIdType *&tupleIds) const
         {
             isExistingArr = true;
             DataArrayIdType *tmp;
-            ret = std::max(ret, (*iter)->getMaxValue2(tmp));
-            MCAuto<DataArrayIdType> tmpSafe(tmp);
-            if (!((const DataArrayIdType *)ret1))
-                ret1 = tmpSafe;
+            ret = (*iter)->getMaxValue2(tmp);
+            ret1 = tmp;
+            break;
         }
     }
     if (!isExistingArr)
@@ -714,10 +713,9 @@ MEDCouplingFieldDouble::getMinValue2(DataArrayIdType *&tupleIds) const
         {
             isExistingArr = true;
             DataArrayIdType *tmp;
-            ret = std::max(ret, (*iter)->getMinValue2(tmp));
-            MCAuto<DataArrayIdType> tmpSafe(tmp);
-            if (!((const DataArrayIdType *)ret1))
-                ret1 = tmpSafe;
+            ret = (*iter)->getMinValue2(tmp);
+            ret1 = tmp;
+            break;
         }
     }
     if (!isExistingArr)
-- 
2.43.0


From 0b97ff3f031d737a958580e82b358b19f28654b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 071/148] fix: MEDCouplingDefinitionTime with a single slice
 left its precision uninitialised

---
 src/MEDCoupling/MEDCouplingDefinitionTime.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingDefinitionTime.cxx b/src/MEDCoupling/MEDCouplingDefinitionTime.cxx
index 953e268..e1e9dff 100644
--- a/src/MEDCoupling/MEDCouplingDefinitionTime.cxx
+++ b/src/MEDCoupling/MEDCouplingDefinitionTime.cxx
@@ -542,6 +542,7 @@ MEDCouplingDefinitionTime::MEDCouplingDefinitionTime(
     const std::vector<int> &meshRefs,
     const std::vector<std::vector<int> > &arrRefs
 )
+    : _eps(EPS_DFT)
 {
     std::size_t sz = fs.size();
     if (sz != arrRefs.size())
@@ -558,7 +559,7 @@ MEDCouplingDefinitionTime::MEDCouplingDefinitionTime(
             );
         _slices[i] = MEDCouplingDefinitionTimeSlice::New(fs[i], meshRefs[i], arrRefs[i], i);
     }
-    if (sz <= 1)
+    if (sz == 0)
         return;
     const MEDCouplingDefinitionTimeSlice *ref = _slices[0];
     _eps = fs[0]->getTimeTolerance();
-- 
2.43.0


From 375c2d3494eb3679858928e1b2eefd5e5742aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:59 +0000
Subject: [PATCH 072/148] fix: component selection in field[cells,components]
 left the end array of LINEAR_TIME fields unrestricted

---
 src/MEDCoupling_Swig/MEDCouplingTypemaps.i | 28 +++++++++++++---------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/MEDCoupling_Swig/MEDCouplingTypemaps.i b/src/MEDCoupling_Swig/MEDCouplingTypemaps.i
index c823377..d034279 100644
--- a/src/MEDCoupling_Swig/MEDCouplingTypemaps.i
+++ b/src/MEDCoupling_Swig/MEDCouplingTypemaps.i
@@ -597,34 +597,40 @@ typename MEDCoupling::Traits<T>::FieldType *fieldT__getitem__(const MEDCoupling:
       typename MEDCoupling::Traits<T>::ArrayType *ret0Arr=ret0->getArray();
       if(!ret0Arr)
         throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble::__getitem__ : no array exists to apply restriction on component on it !");
+      std::vector<std::size_t> v2;
       switch(sw)
         {
         case 1:
           {
-            std::vector<std::size_t> v2(1,singleVal);
-            MEDCoupling::MCAuto< typename MEDCoupling::Traits<T>::ArrayType > aarr(ret0Arr->keepSelectedComponents(v2));
-            ret0->setArray(aarr);
-            return ret0.retn();
+            v2.push_back(singleVal);
+            break;
           }
         case 2:
           {
-            MEDCoupling::MCAuto< typename MEDCoupling::Traits<T>::ArrayType > aarr(ret0Arr->keepSelectedComponents(multiVal));
-            ret0->setArray(aarr);
-            return ret0.retn();
+            v2=multiVal;
+            break;
           }
         case 3:
           {
             mcIdType nbOfComp(MEDCoupling::DataArray::GetNumberOfItemGivenBESRelative(slic.first,slic.second.first,slic.second.second,"MEDCouplingFieldDouble::__getitem__ : invalid range in 2nd parameter (components) !"));
-            std::vector<std::size_t> v2(nbOfComp);
+            v2.resize(nbOfComp);
             for(mcIdType i=0;i<nbOfComp;i++)
               v2[i]=slic.first+i*slic.second.second;
-            MEDCoupling::MCAuto< typename MEDCoupling::Traits<T>::ArrayType > aarr(ret0Arr->keepSelectedComponents(v2));
-            ret0->setArray(aarr);
-            return ret0.retn();
+            break;
           }
         default:
           throw INTERP_KERNEL::Exception(msg);
         }
+      std::vector<typename MEDCoupling::Traits<T>::ArrayType *> arrs(ret0->getArrays());
+      std::vector< MEDCoupling::MCAuto< typename MEDCoupling::Traits<T>::ArrayType > > arrsSafe(arrs.size());
+      for(std::size_t i=0;i<arrs.size();i++)
+        if(arrs[i])
+          {
+            arrsSafe[i]=arrs[i]->keepSelectedComponents(v2);
+            arrs[i]=arrsSafe[i];
+          }
+      ret0->setArrays(arrs);
+      return ret0.retn();
     }
   else
     return fieldT_buildSubPart<T>(self,li);
-- 
2.43.0


From 4c18068252af2ef5e0d962d9f3f312cca55fd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:59 +0000
Subject: [PATCH 073/148] fix: conversions of the value type of a field lost
 the time unit

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx | 1 +
 src/MEDCoupling/MEDCouplingFieldFloat.cxx  | 1 +
 src/MEDCoupling/MEDCouplingFieldInt32.cxx  | 1 +
 src/MEDCoupling/MEDCouplingFieldInt64.cxx  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index 07d03cc..1249f1e 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -513,6 +513,7 @@ ConvertToUField(const MEDCouplingFieldDouble *self)
     double t0(self->getTime(t1, t2));
     MCAuto<typename Traits<U>::FieldType> ret(Traits<U>::FieldType::New(*tmp, self->getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(self->getTimeUnit());
     if (self->getArray())
     {
         MCAuto<typename Traits<U>::ArrayType> arr(self->getArray()->convertToOtherTypeOfArr<U>());
diff --git a/src/MEDCoupling/MEDCouplingFieldFloat.cxx b/src/MEDCoupling/MEDCouplingFieldFloat.cxx
index a8e7376..f58b841 100644
--- a/src/MEDCoupling/MEDCouplingFieldFloat.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldFloat.cxx
@@ -90,6 +90,7 @@ ConvertToUField(const MEDCouplingFieldFloat *self)
     double t0(self->getTime(t1, t2));
     MCAuto<typename Traits<U>::FieldType> ret(Traits<U>::FieldType::New(*tmp, self->getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(self->getTimeUnit());
     if (self->getArray())
     {
         MCAuto<typename Traits<U>::ArrayType> arr(self->getArray()->convertToOtherTypeOfArr<U>());
diff --git a/src/MEDCoupling/MEDCouplingFieldInt32.cxx b/src/MEDCoupling/MEDCouplingFieldInt32.cxx
index 1d959a5..de4e5ba 100644
--- a/src/MEDCoupling/MEDCouplingFieldInt32.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldInt32.cxx
@@ -90,6 +90,7 @@ ConvertToUField(const MEDCouplingFieldInt32 *self)
     double t0(self->getTime(t1, t2));
     MCAuto<typename Traits<U>::FieldType> ret(Traits<U>::FieldType::New(*tmp, self->getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(self->getTimeUnit());
     if (self->getArray())
     {
         MCAuto<typename Traits<U>::ArrayType> arr(self->getArray()->convertToOtherTypeOfArr<U>());
diff --git a/src/MEDCoupling/MEDCouplingFieldInt64.cxx b/src/MEDCoupling/MEDCouplingFieldInt64.cxx
index 494b4da..d113aa7 100644
--- a/src/MEDCoupling/MEDCouplingFieldInt64.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldInt64.cxx
@@ -87,6 +87,7 @@ MEDCouplingFieldInt64::convertToDblField() const
     double t0(getTime(t1, t2));
     MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(*tmp, getTimeDiscretization()));
     ret->setTime(t0, t1, t2);
+    ret->setTimeUnit(getTimeUnit());
     if (getArray())
     {
         MCAuto<DataArrayDouble> arr(getArray()->convertToDblArr());
-- 
2.43.0


From 445ce3f7ae7325bae189b5fc2f07228f8e29da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:59 +0000
Subject: [PATCH 074/148] fix: convertQuadraticCellsToLinear of a field
 modified the connectivity of its operand and handled ONE_TIME only

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index 1249f1e..1b19c2c 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -2100,13 +2100,20 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
             if (!mesh)
                 throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble::convertQuadraticCellsToLinear : null mesh !");
             MCAuto<MEDCouplingUMesh> umesh(mesh->buildUnstructured());
-            umesh = umesh->clone(false);
+            umesh = umesh->deepCopyConnectivityOnly();
             umesh->convertQuadraticCellsToLinear();
             MCAuto<DataArrayIdType> o2n(umesh->zipCoordsTraducer());
             MCAuto<DataArrayIdType> n2o(o2n->invertArrayO2N2N2O(umesh->getNumberOfNodes()));
-            MCAuto<DataArrayDouble> arr(getArray()->selectByTupleIdSafe(n2o->begin(), n2o->end()));
-            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_NODES));
-            ret->setArray(arr);
+            std::vector<DataArrayDouble *> arrays(getArrays());
+            std::vector<MCAuto<DataArrayDouble> > arraysSafe(arrays.size());
+            for (std::size_t i = 0; i < arrays.size(); i++)
+                if (arrays[i])
+                {
+                    arraysSafe[i] = arrays[i]->selectByTupleIdSafe(n2o->begin(), n2o->end());
+                    arrays[i] = arraysSafe[i];
+                }
+            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_NODES, getTimeDiscretization()));
+            ret->setArrays(arrays);
             ret->setMesh(umesh);
             ret->copyAllTinyAttrFrom(this);
             return ret;
@@ -2117,11 +2124,11 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
             if (!mesh)
                 throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble::convertQuadraticCellsToLinear : null mesh !");
             MCAuto<MEDCouplingUMesh> umesh(mesh->buildUnstructured());
-            umesh = umesh->clone(false);
+            umesh = umesh->deepCopyConnectivityOnly();
             umesh->convertQuadraticCellsToLinear();
             umesh->zipCoords();
-            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_CELLS));
-            ret->setArray(const_cast<DataArrayDouble *>(getArray()));
+            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_CELLS, getTimeDiscretization()));
+            ret->setArrays(getArrays());
             ret->setMesh(umesh);
             ret->copyAllTinyAttrFrom(this);
             return ret;
@@ -2133,7 +2140,7 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
                 throw INTERP_KERNEL::Exception("MEDCouplingFieldDouble::convertQuadraticCellsToLinear : null mesh !");
             MCAuto<MEDCouplingUMesh> umesh(mesh->buildUnstructured());
             std::set<INTERP_KERNEL::NormalizedCellType> gt(umesh->getAllGeoTypes());
-            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_GAUSS_PT));
+            MCAuto<MEDCouplingFieldDouble> ret(MEDCouplingFieldDouble::New(ON_GAUSS_PT, getTimeDiscretization()));
             //
             const MEDCouplingFieldDiscretization *disc(getDiscretization());
             const MEDCouplingFieldDiscretizationGauss *disc2(
@@ -2189,7 +2196,7 @@ MEDCouplingFieldDouble::convertQuadraticCellsToLinear() const
             //
             if (isZipReq)
                 umesh->zipCoords();
-            ret->setArray(const_cast<DataArrayDouble *>(getArray()));
+            ret->setArrays(getArrays());
             ret->setMesh(umesh);
             for (std::vector<MEDCouplingGaussLocalization>::const_iterator it = glV.begin(); it != glV.end(); it++)
                 ret->setGaussLocalizationOnType(
-- 
2.43.0


From f3b6a1aa144f3e52a233b0107b0c71463a3a6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:00 +0000
Subject: [PATCH 075/148] fix: restriction of a Gauss field to a range of cells
 took the tuples of one cell too many

---
 src/MEDCoupling/MEDCouplingFieldDiscretization.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
index 10dca1c..41fef42 100644
--- a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
@@ -2576,11 +2576,11 @@ MEDCouplingFieldDiscretizationGauss::buildSubMeshDataRange(
             if (*w >= 0 && *w < nbMaxOfLocId)
             {
                 mcIdType delta = _loc[*w].getNumberOfGaussPt();
+                if (i >= endCellIds)
+                    break;
                 if (i < beginCellIds)
                     beginOut += delta;
                 endOut += delta;
-                if (i >= endCellIds)
-                    break;
             }
             else
             {
@@ -3725,11 +3725,11 @@ MEDCouplingFieldDiscretizationGaussNE::buildSubMeshDataRange(
             throw INTERP_KERNEL::Exception(oss.str().c_str());
         }
         mcIdType delta = cm.getNumberOfNodes();
+        if (i >= endCellIds)
+            break;
         if (i < beginCellIds)
             beginOut += delta;
         endOut += delta;
-        if (i >= endCellIds)
-            break;
     }
     MCAuto<MEDCouplingMesh> ret = mesh->buildPartRange(beginCellIds, endCellIds, stepCellIds);
     return ret.retn();
-- 
2.43.0


From 7fdfb44db90c437e5fe011f8c22a25b9c1832413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 076/148] fix: locate points in hexagonal prisms whose hexagons
 start with collinear nodes

---
 src/INTERP_KERNEL/PointLocatorAlgos.txx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/INTERP_KERNEL/PointLocatorAlgos.txx b/src/INTERP_KERNEL/PointLocatorAlgos.txx
index 7d6bb35..d93eacb 100644
--- a/src/INTERP_KERNEL/PointLocatorAlgos.txx
+++ b/src/INTERP_KERNEL/PointLocatorAlgos.txx
@@ -234,9 +234,9 @@ class PointLocatorAlgos : public GenericPointLocatorAlgos
             NormalizedCellType typeOfSon;
             unsigned nb_face_nodes =
                 cmType.fillSonCellNodalConnectivity2(iface, conn_elem, conn_elem_sz, connOfSon.get(), typeOfSon);
-            // in case of polyhedron, points can be colinear on some faces
+            // in case of polyhedron or hexagonal prism, points can be colinear on some faces
             // => loop until non colinear points are found
-            // or element type is not polyhedron
+            // or face is not a polygon
             // or max number of nodes is reached to avoid infinite loop on this face
             bool non_colinear_points_found = false;
             unsigned i_permutation = 0;
@@ -248,8 +248,8 @@ class PointLocatorAlgos : public GenericPointLocatorAlgos
                     coords + SPACEDIM * (OTT<ConnType, numPol>::coo2C(connOfSon[(1 + i_permutation) % nb_face_nodes]));
                 const double *CC =
                     coords + SPACEDIM * (OTT<ConnType, numPol>::coo2C(connOfSon[(2 + i_permutation) % nb_face_nodes]));
-                if (cmType.getEnum() == NORM_POLYHED && isColinear3DPtsRelative(AA, BB, CC, eps) &&
-                    i_permutation < nb_face_nodes)
+                if ((cmType.getEnum() == NORM_POLYHED || typeOfSon == NORM_POLYGON) &&
+                    isColinear3DPtsRelative(AA, BB, CC, eps) && i_permutation < nb_face_nodes)
                     // points are colinear => use next 3 other points
                     i_permutation += 1;
                 else
-- 
2.43.0


From ef78ab0737958677a4146a4e240179d22c867cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:19 +0000
Subject: [PATCH 077/148] fix: return the smallest id of the cells containing a
 point

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index cbed1f0..3fbead2 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -5427,7 +5427,7 @@ MEDCouplingUMesh::getCellContainingPoint(const double *pos, double eps) const
     getCellsContainingPoint(pos, eps, elts);
     if (elts.empty())
         return -1;
-    return elts.front();
+    return *std::min_element(elts.begin(), elts.end());
 }
 
 /*!
-- 
2.43.0


From 3d0a6da7f20580b638591066378c64fb830d99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:22 +0000
Subject: [PATCH 078/148] fix: propagate the orientation of 2D cells across
 polygons too

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 3fbead2..767452f 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -10947,11 +10947,14 @@ MEDCouplingUMesh::orientCorrectly2DCells(const MEDCouplingUMesh *refFaces)
         mesh[iMesh]->getNodeIdsOfCell(refFace, faceNodes);
         const INTERP_KERNEL::CellModel &cm =
             INTERP_KERNEL::CellModel::GetCellModel(mesh[iMesh]->getTypeOfCell(refFace));
-        const int nbEdges = cm.getNumberOfSons();
+        const mcIdType nbEdges = static_cast<mcIdType>(cm.getNumberOfSons2(
+            mesh[iMesh]->getNodalConnectivity()->begin() + mesh[iMesh]->getNodalConnectivityIndex()->begin()[refFace] + 1,
+            ToIdType(faceNodes.size())
+        ));
 
         // loop on edges of the refFace
         mcIdType n0 = faceNodes[nbEdges - 1];  // 1st node of edge
-        for (int edge = 0; edge < nbEdges; ++edge)
+        for (mcIdType edge = 0; edge < nbEdges; ++edge)
         {
             mcIdType n1 = faceNodes[edge];  // 2nd node of edge
 
-- 
2.43.0


From 025e878b97ae9a6862331643cee20c37503cc556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:22 +0000
Subject: [PATCH 079/148] fix: convex envelop of a 2D cell with a vertical left
 side

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 767452f..45643af 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -10029,12 +10029,15 @@ MEDCouplingUMesh::BuildConvexEnvelopOf2DCellJarvis(
             const mcIdType *node = nodalConnBg + 1;
             mcIdType startNode = *node++;
             double refX = coords[2 * startNode];
+            double refY = coords[2 * startNode + 1];
             for (; node != nodalConnEnd; node++)
             {
-                if (coords[2 * (*node)] < refX)
+                // the lowest one of the leftmost nodes : from the others the march would go down a vertical side
+                if (coords[2 * (*node)] < refX || (coords[2 * (*node)] == refX && coords[2 * (*node) + 1] < refY))
                 {
                     startNode = *node;
                     refX = coords[2 * startNode];
+                    refY = coords[2 * startNode + 1];
                 }
             }
             std::vector<mcIdType> tmpOut;
-- 
2.43.0


From e586db51fa09a6388d9c47b93f56477c3ae60319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:22 +0000
Subject: [PATCH 080/148] fix: ignore the central node of TRI7 and QUAD9 in the
 orientation check

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 45643af..c3ffe48 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -9130,7 +9130,7 @@ MEDCouplingUMesh::IsPolygonWellOriented(
         // (taking only linear points might lead to issues if the linearized version of the
         // polygon is not convex or self-intersecting ... see testCellOrientation4)
         std::size_t hsz = sz / 2;
-        for (std::size_t j = 0; j < sz; j++)
+        for (std::size_t j = 0; j < 2 * hsz; j++)  // the central node of TRI7 and QUAD9, if any, is not on the border
         {
             if (j % 2)  // current point i is quadratic, next point i+1 is standard
             {
-- 
2.43.0


From 7e4cf5767de8fb42cebbbc95f61f99572aaaded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:22 +0000
Subject: [PATCH 081/148] fix: reverse a NORM_POLYL as a whole

---
 src/INTERP_KERNEL/CellModel.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/INTERP_KERNEL/CellModel.cxx b/src/INTERP_KERNEL/CellModel.cxx
index 32c8e6d..a4d61f3 100644
--- a/src/INTERP_KERNEL/CellModel.cxx
+++ b/src/INTERP_KERNEL/CellModel.cxx
@@ -1868,9 +1868,7 @@ CellModel::changeOrientationOf1D(mcIdType *nodalConn, unsigned int sz) const
     }
     else
     {
-        std::vector<mcIdType> tmp(sz - 1);
-        std::copy(nodalConn + 1, nodalConn + sz, tmp.rbegin());
-        std::copy(tmp.begin(), tmp.end(), nodalConn + 1);
+        std::reverse(nodalConn, nodalConn + sz);
     }
 }
 
-- 
2.43.0


From f1431506f722ad36aa1cf5e0a265602523f28f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 082/148] fix: heap overflow when reversing TRI7 and QUAD9
 cells

---
 src/INTERP_KERNEL/CellModel.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/CellModel.cxx b/src/INTERP_KERNEL/CellModel.cxx
index a4d61f3..8fff8bc 100644
--- a/src/INTERP_KERNEL/CellModel.cxx
+++ b/src/INTERP_KERNEL/CellModel.cxx
@@ -1842,7 +1842,8 @@ CellModel::changeOrientationOf2D(mcIdType *nodalConn, unsigned int sz) const
         unsigned int sz2(sz / 2);
         std::vector<mcIdType> tmp0(sz2 - 1), tmp1(sz2);
         std::copy(nodalConn + 1, nodalConn + sz2, tmp0.rbegin());
-        std::copy(nodalConn + sz2, nodalConn + sz, tmp1.rbegin());
+        // the center node of NORM_TRI7 and NORM_QUAD9, if any, is left at the end
+        std::copy(nodalConn + sz2, nodalConn + 2 * sz2, tmp1.rbegin());
         std::copy(tmp0.begin(), tmp0.end(), nodalConn + 1);
         std::copy(tmp1.begin(), tmp1.end(), nodalConn + sz2);
     }
-- 
2.43.0


From 5d4fa74af844f6fec9244ff33c3db146466d3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 083/148] fix: the deep copy of a MEDCouplingFieldOverTime is a
 MEDCouplingFieldOverTime

---
 src/MEDCoupling/MEDCouplingFieldOverTime.cxx | 6 ++++++
 src/MEDCoupling/MEDCouplingFieldOverTime.hxx | 1 +
 src/MEDCoupling/MEDCouplingMultiFields.hxx   | 2 +-
 src/MEDCoupling_Swig/MEDCouplingCommon.i     | 2 ++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldOverTime.cxx b/src/MEDCoupling/MEDCouplingFieldOverTime.cxx
index 52bcfae..8204e5d 100644
--- a/src/MEDCoupling/MEDCouplingFieldOverTime.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldOverTime.cxx
@@ -112,6 +112,12 @@ MEDCouplingFieldOverTime::simpleRepr() const
     return ret.str();
 }
 
+MEDCouplingFieldOverTime *
+MEDCouplingFieldOverTime::deepCopy() const
+{
+    return new MEDCouplingFieldOverTime(*this);
+}
+
 bool
 MEDCouplingFieldOverTime::isEqual(const MEDCouplingMultiFields *other, double meshPrec, double valsPrec) const
 {
diff --git a/src/MEDCoupling/MEDCouplingFieldOverTime.hxx b/src/MEDCoupling/MEDCouplingFieldOverTime.hxx
index 4ac5e62..e60f45b 100644
--- a/src/MEDCoupling/MEDCouplingFieldOverTime.hxx
+++ b/src/MEDCoupling/MEDCouplingFieldOverTime.hxx
@@ -33,6 +33,7 @@ class MEDCouplingFieldOverTime : public MEDCouplingMultiFields
 {
    public:
     MEDCOUPLING_EXPORT static MEDCouplingFieldOverTime *New(const std::vector<MEDCouplingFieldDouble *> &fs);
+    MEDCOUPLING_EXPORT MEDCouplingFieldOverTime *deepCopy() const override;
     MEDCOUPLING_EXPORT void checkConsistencyLight() const;
     MEDCOUPLING_EXPORT double getTimeTolerance() const;
     MEDCOUPLING_EXPORT std::string simpleRepr() const;
diff --git a/src/MEDCoupling/MEDCouplingMultiFields.hxx b/src/MEDCoupling/MEDCouplingMultiFields.hxx
index 4ffad1c..f8b82d6 100644
--- a/src/MEDCoupling/MEDCouplingMultiFields.hxx
+++ b/src/MEDCoupling/MEDCouplingMultiFields.hxx
@@ -43,7 +43,7 @@ class MEDCouplingMultiFields : public RefCountObject, public TimeLabel
     MEDCOUPLING_EXPORT static MEDCouplingMultiFields *New(const std::vector<MEDCouplingFieldDouble *> &fs);
     MEDCOUPLING_EXPORT static MEDCouplingMultiFields *New();
     std::string getClassName() const override { return std::string("MEDCouplingMultiFields"); }
-    MEDCOUPLING_EXPORT MEDCouplingMultiFields *deepCopy() const;
+    MEDCOUPLING_EXPORT virtual MEDCouplingMultiFields *deepCopy() const;
     MEDCOUPLING_EXPORT std::string getName() const;
     MEDCOUPLING_EXPORT std::string getDescription() const;
     MEDCOUPLING_EXPORT std::string getTimeUnit() const;
diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index bdd4446..0d36c86 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -467,6 +467,7 @@ typedef long mcPyPtrType;
 %newobject MEDCoupling::MEDCouplingMultiFields::New;
 %newobject MEDCoupling::MEDCouplingMultiFields::deepCopy;
 %newobject MEDCoupling::MEDCouplingFieldOverTime::New;
+%newobject MEDCoupling::MEDCouplingFieldOverTime::deepCopy;
 %newobject MEDCoupling::MEDCouplingCartesianAMRPatchGen::getMesh;
 %newobject MEDCoupling::MEDCouplingCartesianAMRPatchGen::__getitem__;
 %newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::deepCopy;
@@ -5790,6 +5791,7 @@ namespace MEDCoupling
   {
   public:
     double getTimeTolerance() const;
+    MEDCouplingFieldOverTime *deepCopy() const;
     MEDCouplingDefinitionTime getDefinitionTimeZone() const;
 
     %extend
-- 
2.43.0


From b3c487db7df4c2527aa2cde008d175ba0659a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:05 +0000
Subject: [PATCH 084/148] fix: serialize the time of integer and float fields

---
 .../MEDCouplingTimeDiscretization.hxx         |  7 +++++
 .../MEDCouplingTimeDiscretization.txx         | 31 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx b/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx
index 4a42547..e551441 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.hxx
@@ -307,6 +307,13 @@ class MEDCouplingTimeDiscretizationSimple : public MEDCouplingTimeDiscretization
     void setEndTimeValue(double time);
     void setEndTime(double time, int iteration, int order);
     TypeOfTimeDiscretization getEnum() const { return DISCRETIZATION; }
+    void getTinySerializationIntInformation(std::vector<mcIdType> &tinyInfo) const override;
+    void getTinySerializationDbleInformation(std::vector<double> &tinyInfo) const override;
+    void finishUnserialization(
+        const std::vector<mcIdType> &tinyInfoI,
+        const std::vector<double> &tinyInfoD,
+        const std::vector<std::string> &tinyInfoS
+    ) override;
 
    protected:
     MEDCouplingTimeDiscretizationSimple(const MEDCouplingTimeDiscretizationSimple<T> &other, bool deepCopy);
diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
index 850486a..d7abf15 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
@@ -391,6 +391,37 @@ MEDCouplingTimeDiscretizationSimple<T>::setEndTime(double time, int iteration, i
     throw INTERP_KERNEL::Exception("setEndTime : invalid for this type of time discr !");
 }
 
+template <class T>
+void
+MEDCouplingTimeDiscretizationSimple<T>::getTinySerializationIntInformation(std::vector<mcIdType> &tinyInfo) const
+{
+    MEDCouplingTimeDiscretizationTemplate<T>::getTinySerializationIntInformation(tinyInfo);
+    tinyInfo.push_back(_tk.getIteration());
+    tinyInfo.push_back(_tk.getOrder());
+}
+
+template <class T>
+void
+MEDCouplingTimeDiscretizationSimple<T>::getTinySerializationDbleInformation(std::vector<double> &tinyInfo) const
+{
+    MEDCouplingTimeDiscretizationTemplate<T>::getTinySerializationDbleInformation(tinyInfo);
+    tinyInfo.push_back(_tk.getTimeValue());
+}
+
+template <class T>
+void
+MEDCouplingTimeDiscretizationSimple<T>::finishUnserialization(
+    const std::vector<mcIdType> &tinyInfoI,
+    const std::vector<double> &tinyInfoD,
+    const std::vector<std::string> &tinyInfoS
+)
+{
+    MEDCouplingTimeDiscretizationTemplate<T>::finishUnserialization(tinyInfoI, tinyInfoD, tinyInfoS);
+    _tk.setTimeValue(tinyInfoD[1]);
+    _tk.setIteration(FromIdType<int>(tinyInfoI[2]));
+    _tk.setOrder(FromIdType<int>(tinyInfoI[3]));
+}
+
 template <class T>
 MEDCouplingTimeDiscretizationSimple<T>::MEDCouplingTimeDiscretizationSimple(
     const MEDCouplingTimeDiscretizationSimple<T> &other, bool deepCopy
-- 
2.43.0


From facc0725c4d27b4a0398921bad68460dd2a5eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:05 +0000
Subject: [PATCH 085/148] fix: keep the time unit in the deep copy of multi
 fields

---
 src/MEDCoupling/MEDCouplingMultiFields.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingMultiFields.cxx b/src/MEDCoupling/MEDCouplingMultiFields.cxx
index ba14674..3cb087d 100644
--- a/src/MEDCoupling/MEDCouplingMultiFields.cxx
+++ b/src/MEDCoupling/MEDCouplingMultiFields.cxx
@@ -386,6 +386,7 @@ MEDCouplingMultiFields::MEDCouplingMultiFields(const MEDCouplingMultiFields &oth
             other._fs[i]->getTimeDiscretizationUnderGround()->getTinySerializationIntInformation2(tinyInfo);
             other._fs[i]->getTimeDiscretizationUnderGround()->getTinySerializationDbleInformation2(tinyInfo2);
             _fs[i]->getTimeDiscretizationUnderGround()->finishUnserialization2(tinyInfo, tinyInfo2);
+            _fs[i]->setTimeUnit(other._fs[i]->getTimeUnit());
         }
     }
 }
-- 
2.43.0


From 9c4b4c77b8313244a748d47204d7053ca87bfeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:05 +0000
Subject: [PATCH 086/148] fix: serialize the time of mapped extruded meshes

---
 .../MEDCouplingMappedExtrudedMesh.cxx         | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 3585114..7161b00 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -1020,6 +1020,13 @@ MEDCouplingMappedExtrudedMesh::getTinySerializationInformation(
     tinyInfo.push_back(_mesh3D_ids->getNbOfElems());
     littleStrings.push_back(getName());
     littleStrings.push_back(getDescription());
+    littleStrings.push_back(getTimeUnit());
+    int it, order;
+    double time(getTime(it, order));
+    tinyInfo.insert(tinyInfo.begin(), {it, order});
+    tinyInfoD.assign(1, time);
+    tinyInfoD.insert(tinyInfoD.end(), ls3.begin(), ls3.end());
+    tinyInfoD.insert(tinyInfoD.end(), ls4.begin(), ls4.end());
 }
 
 void
@@ -1032,8 +1039,8 @@ MEDCouplingMappedExtrudedMesh::resizeForUnserialization(
 {
     std::size_t sz = tinyInfo.size();
     mcIdType sz1 = tinyInfo[sz - 2];
-    std::vector<mcIdType> ti1(tinyInfo.begin(), tinyInfo.begin() + sz1);
-    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 3);
+    std::vector<mcIdType> ti1(tinyInfo.begin() + 2, tinyInfo.begin() + 2 + sz1);
+    std::vector<mcIdType> ti2(tinyInfo.begin() + 2 + sz1, tinyInfo.end() - 3);
     MEDCouplingUMesh *um = MEDCouplingUMesh::New();
     DataArrayIdType *a1tmp = DataArrayIdType::New();
     DataArrayDouble *a2tmp = DataArrayDouble::New();
@@ -1055,7 +1062,7 @@ MEDCouplingMappedExtrudedMesh::resizeForUnserialization(
     //
     a1->alloc(la1 + tinyInfo[sz - 1], 1);
     a2->alloc(la2, 1);
-    littleStrings.resize(ls1.size() + ls2.size() + 2);
+    littleStrings.resize(ls1.size() + ls2.size() + 3);
 }
 
 void
@@ -1091,13 +1098,15 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     const std::vector<std::string> &littleStrings
 )
 {
-    setName(littleStrings[littleStrings.size() - 2]);
-    setDescription(littleStrings.back());
+    setName(littleStrings[littleStrings.size() - 3]);
+    setDescription(littleStrings[littleStrings.size() - 2]);
+    setTimeUnit(littleStrings.back());
+    setTime(tinyInfoD[0], FromIdType<int>(tinyInfo[0]), FromIdType<int>(tinyInfo[1]));
     std::size_t sz = tinyInfo.size();
     mcIdType sz1 = tinyInfo[sz - 2];
     _cell_2D_id = tinyInfo[sz - 3];
-    std::vector<mcIdType> ti1(tinyInfo.begin(), tinyInfo.begin() + sz1);
-    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 3);
+    std::vector<mcIdType> ti1(tinyInfo.begin() + 2, tinyInfo.begin() + 2 + sz1);
+    std::vector<mcIdType> ti2(tinyInfo.begin() + 2 + sz1, tinyInfo.end() - 3);
     DataArrayIdType *a1tmp = DataArrayIdType::New();
     DataArrayDouble *a2tmp = DataArrayDouble::New();
     const mcIdType *a1Ptr = a1->begin();
@@ -1110,13 +1119,13 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     a2Ptr += a2tmp->getNbOfElems();
     a1Ptr += a1tmp->getNbOfElems();
     ls2.insert(ls2.end(), littleStrings.begin(), littleStrings.begin() + ls1.size());
-    std::vector<double> d1(1);
+    std::vector<double> d1(1, tinyInfoD[1]), d2(1, tinyInfoD[2]);
     _mesh2D->unserialization(d1, ti1, a1tmp, a2tmp, ls2);
     a1tmp->decrRef();
     a2tmp->decrRef();
     //
     ls2.clear();
-    ls2.insert(ls2.end(), littleStrings.begin() + ls1.size(), littleStrings.end() - 2);
+    ls2.insert(ls2.end(), littleStrings.begin() + ls1.size(), littleStrings.end() - 3);
     _mesh1D = MEDCouplingUMesh::New();
     a1tmp = DataArrayIdType::New();
     a2tmp = DataArrayDouble::New();
@@ -1124,7 +1133,7 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     std::copy(a2Ptr, a2Ptr + a2tmp->getNbOfElems(), a2tmp->getPointer());
     std::copy(a1Ptr, a1Ptr + a1tmp->getNbOfElems(), a1tmp->getPointer());
     a1Ptr += a1tmp->getNbOfElems();
-    _mesh1D->unserialization(d1, ti2, a1tmp, a2tmp, ls2);
+    _mesh1D->unserialization(d2, ti2, a1tmp, a2tmp, ls2);
     a1tmp->decrRef();
     a2tmp->decrRef();
     //
-- 
2.43.0


From 0ccfc3ff165328cf7ab2adbba8f8e21777e3a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 087/148] fix: compute the Sobol indices of fields with several
 components

---
 src/Stat/MEDCouplingIterativeStatistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Stat/MEDCouplingIterativeStatistics.py b/src/Stat/MEDCouplingIterativeStatistics.py
index 95bff2a..486b7b7 100644
--- a/src/Stat/MEDCouplingIterativeStatistics.py
+++ b/src/Stat/MEDCouplingIterativeStatistics.py
@@ -242,7 +242,9 @@ class IterativeFieldSobol:
 
         for k in range(self._size):
             tks = np.array([field.getArray().getTuple(k) for field in fields])
-            self._agg_sobol[k].increment(tks.reshape((self._nb_parms + 2,)))
+            if self._dim == 1:
+                tks = tks.reshape((self._nb_parms + 2,))
+            self._agg_sobol[k].increment(tks)
 
     def indices(self, k):
         """
-- 
2.43.0


From 125a18522e09638c6d1888b3c91d5d4b39c9e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:04 +0000
Subject: [PATCH 088/148] fix: refuse the moments asked before any increment as
 documented

---
 src/Stat/MEDCouplingIterativeStatistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Stat/MEDCouplingIterativeStatistics.py b/src/Stat/MEDCouplingIterativeStatistics.py
index 486b7b7..ad057fb 100644
--- a/src/Stat/MEDCouplingIterativeStatistics.py
+++ b/src/Stat/MEDCouplingIterativeStatistics.py
@@ -60,6 +60,9 @@ class IterativeFieldMoments:
         self._enable_mean = enable_mean
         self._enable_variance = enable_variance
         self._enable_covariance = enable_covariance
+        self._agg_mean = None
+        self._agg_variance = None
+        self._agg_covariance = None
 
     def increment(self, field):
         """
-- 
2.43.0


From 98ee813283818507ef4afcea8d00672c7a8e55f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:53 +0000
Subject: [PATCH 089/148] fix: measure the angle of opposite vectors as pi and
 of parallel ones as 0

---
 src/ShapeRecogn/MathOps.cxx | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/ShapeRecogn/MathOps.cxx b/src/ShapeRecogn/MathOps.cxx
index cb20d6e..caf00b1 100644
--- a/src/ShapeRecogn/MathOps.cxx
+++ b/src/ShapeRecogn/MathOps.cxx
@@ -273,10 +273,7 @@ MathOps::computeAngle(const std::array<double, 3> &direction, std::array<double,
     double normAxis = computeNorm(axis);
     double normDirection = computeNorm(direction);
     angle /= normDirection * normAxis;
-    if (fabs(angle) >= 1)
-        return 0;
-    else
-        return acos(angle);
+    return acos(std::max(-1.0, std::min(1.0, angle)));
 }
 
 std::vector<double>
@@ -303,9 +300,7 @@ MathOps::computeAngles(const std::vector<double> &directions, std::array<double,
     for (size_t i = 0; i < nbDirections; ++i)
     {
         angles[i] /= normAxis * normDirections[i];
-        if (fabs(angles[i]) >= 1.0)
-            angles[i] = 0.0;
-        angles[i] = acos(angles[i]);
+        angles[i] = acos(std::max(-1.0, std::min(1.0, angles[i])));
     }
     return angles;
 }
-- 
2.43.0


From c41d50e913c97c645bdae0cc568e97dbada264ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:53 +0000
Subject: [PATCH 090/148] fix: do not compute the properties of cones emptied
 by the expansion

---
 src/ShapeRecogn/Areas.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ShapeRecogn/Areas.cxx b/src/ShapeRecogn/Areas.cxx
index 039cd47..d81d440 100644
--- a/src/ShapeRecogn/Areas.cxx
+++ b/src/ShapeRecogn/Areas.cxx
@@ -362,6 +362,8 @@ Areas::computeConeProperties(mcIdType areaId)
 {
     Area &area = areas[areaId];
     size_t nbNodes = area.nodeIds.size();
+    if (nbNodes == 0)
+        return;
     // Project the nodes to the central axis of the cone
     std::vector<double> projectedNodes(3 * nbNodes, 0.0);
     std::vector<double> radiusNodes(nbNodes, 0.0);
-- 
2.43.0


From 0bc057ad1c910ce1f130132ef1728bc6f0519b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 091/148] fix: keep the conformity-preserving colinearization
 from testing the wrong junction after a backward merge

---
 src/MEDCoupling/MEDCouplingUMesh_intersection.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx b/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
index 7d26930..f6c349f 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_intersection.cxx
@@ -571,7 +571,9 @@ MEDCouplingUMesh::Colinearize2DCell(
                 std::copy((mcIdType *)tmpConn2, tmpConn2 + sz, (mcIdType *)tmpConn);
             }
         }
-        // Now move forward:
+        // Now move forward, from the first edge:
+        if (nbOfTurn == 0)
+            cm.fillSonCellNodalConnectivity2(0, connBg + 1, ToIdType(sz), tmpConn, typeOfSon);
         const unsigned fwdStart = (nbOfTurn == 0 ? 0 : posBaseElt);  // the first element to be inspected going forward
         for (unsigned j = fwdStart + 1; j < nbs && nbOfHit < maxNbOfHit;
              j++)  // 2nd condition is to avoid ending with a cell with one single edge
-- 
2.43.0


From f3bc56609c4e2233286ed2bad245a075b50d2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 092/148] fix: refuse the bi-quadratic conversion of the 2D
 cells without such a type

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index 00d5b11..831d63d 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -1359,6 +1359,13 @@ MEDCouplingUMesh::convertLinearCellsToQuadratic2D1(
         if (!cm.isQuadratic())
         {
             INTERP_KERNEL::NormalizedCellType typ2 = cm.getQuadraticType2();
+            if (typ2 == INTERP_KERNEL::NORM_ERROR)
+            {
+                std::ostringstream oss;
+                oss << "MEDCouplingUMesh::convertLinearCellsToQuadratic2D1 : On cell #" << i
+                    << " the linear cell type does not support advanced quadratization !";
+                throw INTERP_KERNEL::Exception(oss.str());
+            }
             types.insert(typ2);
             newConn->pushBackSilent(typ2);
             newConn->pushBackValsSilent(cPtr + icPtr[0] + 1, cPtr + icPtr[1]);
-- 
2.43.0


From 5946414225b74ae10a50fef4b113517f9df5a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 093/148] fix: leave polyhedra untouched in
 convertLinearCellsToQuadratic as documented

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index 831d63d..b92a985 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -1265,7 +1265,7 @@ MEDCouplingUMesh::convertLinearCellsToQuadratic2DAnd3D0(
     {
         INTERP_KERNEL::NormalizedCellType typ = (INTERP_KERNEL::NormalizedCellType)cPtr[*icPtr];
         const INTERP_KERNEL::CellModel &cm = INTERP_KERNEL::CellModel::GetCellModel(typ);
-        if (!cm.isQuadratic())
+        if (!cm.isQuadratic() && cm.getQuadraticType() != INTERP_KERNEL::NORM_ERROR)
         {
             INTERP_KERNEL::NormalizedCellType typ2 = cm.getQuadraticType();
             types.insert(typ2);
-- 
2.43.0


From 723fa4dd1ada627b9d0868cd1f580cafd6689179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 094/148] fix: tessellate curves whose arcs are all split in
 two

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index b92a985..bad9691 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -473,12 +473,11 @@ MEDCouplingUMesh::tessellate2DCurveInternal(double eps)
         {
             types.insert((INTERP_KERNEL::NormalizedCellType)conn[connI[i]]);
             newConn.insert(newConn.end(), conn + connI[i], conn + connI[i + 1]);
-            newConnIPtr[1] = newConnIPtr[0] + 3;
+            newConnIPtr[1] = ToIdType(newConn.size());
         }
     }
-    if (addCoo.empty() &&
-        ToIdType(newConn.size()) ==
-            _nodal_connec->getNumberOfTuples())  // nothing happens during tessellation : no update needed
+    if (addCoo.empty() && ToIdType(newConn.size()) == _nodal_connec->getNumberOfTuples() &&
+        std::equal(newConn.begin(), newConn.end(), conn))  // nothing happens during tessellation : no update needed
         return;
     _types = types;
     DataArrayIdType::SetArrayIn(newConnI, _nodal_connec_index);
-- 
2.43.0


From a1d15c0040035c862a8940d539429499c1b1961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 095/148] fix: keep the orientation of the faces in
 simplifyPolyhedra

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 53 ++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index c3ffe48..7e94708 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -1721,7 +1721,7 @@ MEDCouplingUMesh::simplifyPolyhedra(double eps)
     connNew->alloc(0, 1);
     MCAuto<DataArrayIdType> E_Fi(DataArrayIdType::New()), E_F(DataArrayIdType::New()), F_Ei(DataArrayIdType::New()),
         F_E(DataArrayIdType::New());
-    MCAuto<MEDCouplingUMesh> m_faces(buildDescendingConnectivity(E_F, E_Fi, F_E, F_Ei));
+    MCAuto<MEDCouplingUMesh> m_faces(buildDescendingConnectivity2(E_F, E_Fi, F_E, F_Ei));
     bool changed = false;
     for (mcIdType i = 0; i < nbOfCells; i++, connINewPtr++)
     {
@@ -9254,6 +9254,22 @@ MEDCouplingUMesh::IsPyra5WellOriented(const mcIdType *begin, const mcIdType *end
     return (vec0[0] * (pt1[0] - pt0[0]) + vec0[1] * (pt1[1] - pt0[1]) + vec0[2] * (pt1[2] - pt0[2])) < 0.;
 }
 
+namespace
+{
+/*!
+ * Appends a face of a polyhedron to \a res, reversed (with the same first node) if \a direct is false.
+ */
+void
+AppendFace(const mcIdType *bg, const mcIdType *end, bool direct, DataArrayIdType *res)
+{
+    res->pushBackSilent(*bg);
+    if (direct)
+        res->insertAtTheEnd(bg + 1, end);
+    else
+        for (const mcIdType *node = end - 1; node != bg; node--) res->pushBackSilent(*node);
+}
+}  // namespace
+
 /*!
  * This method performs a simplyfication of a single polyedron cell. To do that each face of cell whose connectivity is
  * defined by [ \b begin , \b end ) is compared with the others in order to find faces in the same plane (with approx of
@@ -9284,16 +9300,20 @@ MEDCouplingUMesh::SimplifyPolyhedronCell(
     MCAuto<DataArrayDouble> p = DataArrayDouble::New();
     p->alloc(nbFaces, 2);
     double *pPtr = p->getPointer();
-    mcIdType *e_fi = E_Fi->getPointer(), *e_f = E_F->getPointer(), *f_ei = F_Ei->getPointer(), *f_e = F_E->getPointer();
+    mcIdType *e_fi = E_Fi->getPointer(), *f_ei = F_Ei->getPointer(), *f_e = F_E->getPointer();
+    // ids and orientations (relative to the current cell) of the faces
+    const mcIdType *e_f2 = E_F->begin() + e_fi[index];
+    std::vector<mcIdType> e_f(nbFaces);
+    for (mcIdType i = 0; i < nbFaces; i++) e_f[i] = std::abs(e_f2[i]) - 1;
     const mcIdType *f_idx = faces->getNodalConnectivityIndex()->getPointer(),
                    *f_cnn = faces->getNodalConnectivity()->getPointer();
     for (mcIdType i = 0; i < nbFaces; i++, vPtr += 3, pPtr++)
     {
-        mcIdType face = e_f[e_fi[index] + i];
+        mcIdType face = e_f[i];
         ComputeVecAndPtOfFace(eps, coords->begin(), f_cnn + f_idx[face] + 1, f_cnn + f_idx[face + 1], vPtr, pPtr);
         // to differentiate faces going to different cells:
         pPtr++, *pPtr = 0;
-        for (mcIdType j = f_ei[face]; j < f_ei[face + 1]; j++) *pPtr += FromIdType<double>(f_e[j]);
+        for (mcIdType j = f_ei[face]; j < f_ei[face + 1]; j++) *pPtr += FromIdType<double>(std::abs(f_e[j]) - 1);
     }
     pPtr = p->getPointer();
     vPtr = v->getPointer();
@@ -9331,8 +9351,8 @@ MEDCouplingUMesh::SimplifyPolyhedronCell(
         {
             if (commI2Ptr[j + 1] == commI2Ptr[j] + 1)
             {
-                mcIdType face = e_f[e_fi[index] + comm1Ptr[commI1Ptr[i] + comm2Ptr[commI2Ptr[j]]]];  // hmmm
-                res->insertAtTheEnd(f_cnn + f_idx[face] + 1, f_cnn + f_idx[face + 1]);
+                mcIdType locFace = comm1Ptr[commI1Ptr[i] + comm2Ptr[commI2Ptr[j]]];
+                AppendFace(f_cnn + f_idx[e_f[locFace]] + 1, f_cnn + f_idx[e_f[locFace] + 1], e_f2[locFace] > 0, res);
                 res->pushBackSilent(-1);
             }
             else
@@ -9340,7 +9360,18 @@ MEDCouplingUMesh::SimplifyPolyhedronCell(
                 mcIdType pointId = comm1Ptr[commI1Ptr[i] + comm2Ptr[commI2Ptr[j]]];
                 MCAuto<DataArrayIdType> ids2 = comm2->selectByTupleIdSafeSlice(commI2Ptr[j], commI2Ptr[j + 1], 1);
                 ids2->transformWithIndArr(comm1Ptr + commI1Ptr[i], comm1Ptr + commI1Ptr[i + 1]);
-                ids2->transformWithIndArr(e_f + e_fi[index], e_f + e_fi[index + 1]);
+                std::set<std::pair<mcIdType, mcIdType> > edges;  // edges of merged faces seen from the current cell
+                for (const mcIdType *locFace = ids2->begin(); locFace != ids2->end(); locFace++)
+                {
+                    const mcIdType *nodes = f_cnn + f_idx[e_f[*locFace]] + 1;
+                    const mcIdType nbNodes = f_idx[e_f[*locFace] + 1] - f_idx[e_f[*locFace]] - 1;
+                    for (mcIdType k = 0; k < nbNodes; k++)
+                        if (e_f2[*locFace] > 0)
+                            edges.insert(std::make_pair(nodes[k], nodes[(k + 1) % nbNodes]));
+                        else
+                            edges.insert(std::make_pair(nodes[(k + 1) % nbNodes], nodes[k]));
+                }
+                ids2->transformWithIndArr(e_f.data(), e_f.data() + nbFaces);
                 MCAuto<MEDCouplingUMesh> mm3 =
                     static_cast<MEDCouplingUMesh *>(faces->buildPartOfMySelf(ids2->begin(), ids2->end(), true));
                 MCAuto<DataArrayIdType> idsNodeTmp = mm3->zipCoordsTraducer();
@@ -9367,9 +9398,11 @@ MEDCouplingUMesh::SimplifyPolyhedronCell(
                 mcIdType nbOfCells = mm4->getNumberOfCells();
                 for (mcIdType k = 0; k < nbOfCells; k++)
                 {
-                    int l = 0;
-                    for (const mcIdType *work = conn4 + connI4[k] + 1; work != conn4 + connI4[k + 1]; work++, l++)
-                        res->pushBackSilent(idsNodePtr[*work]);
+                    std::vector<mcIdType> contour;
+                    for (const mcIdType *work = conn4 + connI4[k] + 1; work != conn4 + connI4[k + 1]; work++)
+                        contour.push_back(idsNodePtr[*work]);
+                    bool direct = edges.find(std::make_pair(contour[0], contour[1])) != edges.end();
+                    AppendFace(contour.data(), contour.data() + contour.size(), direct, res);
                     res->pushBackSilent(-1);
                 }
             }
-- 
2.43.0


From aeb4b2d0137de2cacd48d8b3d83b626ed5422438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:06 +0000
Subject: [PATCH 096/148] fix: simplify degenerated cells in a new
 connectivity, a polyhedron being longer than the original cell

---
 .../InterpKernelCellSimplify.cxx              |  4 +-
 src/MEDCoupling/MEDCouplingUMesh.cxx          | 64 ++++++++++++++-----
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx b/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx
index 141e5dc..f317a8f 100644
--- a/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx
+++ b/src/INTERP_KERNEL/InterpKernelCellSimplify.cxx
@@ -178,7 +178,9 @@ CellSimplify::getFullPolyh3DCell(
         work += newPos;
         *work++ = -1;
     }
-    std::copy(faces.begin(), faces.end(), --work);
+    if (work != tmp)
+        --work;  // no separator after the last face
+    std::copy(faces.begin(), faces.end(), work);
     retNbOfFaces = (int)faces.size();
     retLgth = (int)std::distance(tmp, work);
     return tmp;
diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 7e94708..4823f39 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -6289,6 +6289,24 @@ MEDCouplingUMesh::areOnlySimplexCells() const
     return true;
 }
 
+namespace
+{
+/*!
+ * Upper bound of the length, type included, of the cell described by \a conn and \a connI once simplified by
+ * INTERP_KERNEL::CellSimplify::simplifyDegeneratedCell.
+ */
+mcIdType
+CellSimplifyMaxLength(const mcIdType *conn, const mcIdType *connI)
+{
+    const mcIdType lgth = connI[1] - connI[0] - 1;
+    const INTERP_KERNEL::CellModel &cm =
+        INTERP_KERNEL::CellModel::GetCellModel((INTERP_KERNEL::NormalizedCellType)conn[connI[0]]);
+    if (cm.getDimension() != 3 || cm.isQuadratic() || cm.isDynamic())
+        return lgth + 1;
+    return cm.getNumberOfSons() * (lgth + 1) + 1;
+}
+}  // namespace
+
 /*!
  * Converts degenerated 2D or 3D linear cells of \a this mesh into cells of simpler
  * type. For example an INTERP_KERNEL::NORM_QUAD4 cell having only three unique nodes in
@@ -6311,28 +6329,34 @@ MEDCouplingUMesh::convertDegeneratedCells()
     mcIdType nbOfCells = getNumberOfCells();
     if (nbOfCells < 1)
         return;
-    mcIdType initMeshLgth = getNodalConnectivityArrayLen();
-    mcIdType *conn = _nodal_connec->getPointer();
-    mcIdType *index = _nodal_connec_index->getPointer();
+    // a cell can become a longer one (NORM_POLYHED), so the new connectivity cannot be written over the old one
+    const mcIdType *oldConn = _nodal_connec->begin();
+    mcIdType maxLgth = 0;
+    for (mcIdType i = 0; i < nbOfCells; i++)
+        maxLgth += CellSimplifyMaxLength(oldConn, _nodal_connec_index->begin() + i);
+    MCAuto<DataArrayIdType> newConn(DataArrayIdType::New());
+    newConn->alloc(maxLgth, 1);
+    mcIdType *conn = newConn->getPointer();
+    MCAuto<DataArrayIdType> newConnI(_nodal_connec_index->deepCopy());
+    mcIdType *index = newConnI->getPointer();
     mcIdType posOfCurCell = 0;
     mcIdType newPos = 0;
     mcIdType lgthOfCurCell;
     for (mcIdType i = 0; i < nbOfCells; i++)
     {
         lgthOfCurCell = index[i + 1] - posOfCurCell;
-        INTERP_KERNEL::NormalizedCellType type = (INTERP_KERNEL::NormalizedCellType)conn[posOfCurCell];
+        INTERP_KERNEL::NormalizedCellType type = (INTERP_KERNEL::NormalizedCellType)oldConn[posOfCurCell];
         mcIdType newLgth;
         INTERP_KERNEL::NormalizedCellType newType = INTERP_KERNEL::CellSimplify::simplifyDegeneratedCell(
-            type, conn + posOfCurCell + 1, lgthOfCurCell - 1, conn + newPos + 1, newLgth
+            type, oldConn + posOfCurCell + 1, lgthOfCurCell - 1, conn + newPos + 1, newLgth
         );
         conn[newPos] = newType;
         newPos += newLgth + 1;
         posOfCurCell = index[i + 1];
         index[i + 1] = newPos;
     }
-    if (newPos != initMeshLgth)
-        _nodal_connec->reAlloc(newPos);
-    computeTypes();
+    newConn->reAlloc(newPos);
+    setConnectivity(newConn, newConnI, true);
 }
 
 /*!
@@ -6357,19 +6381,26 @@ MEDCouplingUMesh::convertDegeneratedCellsAndRemoveFlatOnes()
     ret->alloc(0, 1);
     if (nbOfCells < 1)
         return ret.retn();
-    mcIdType initMeshLgth = getNodalConnectivityArrayLen();
-    mcIdType *conn = _nodal_connec->getPointer();
-    mcIdType *index = _nodal_connec_index->getPointer();
+    // a cell can become a longer one (NORM_POLYHED), so the new connectivity cannot be written over the old one
+    const mcIdType *oldConn = _nodal_connec->begin();
+    mcIdType maxLgth = 0;
+    for (mcIdType i = 0; i < nbOfCells; i++)
+        maxLgth += CellSimplifyMaxLength(oldConn, _nodal_connec_index->begin() + i);
+    MCAuto<DataArrayIdType> newConn(DataArrayIdType::New());
+    newConn->alloc(maxLgth, 1);
+    mcIdType *conn = newConn->getPointer();
+    MCAuto<DataArrayIdType> newConnI(_nodal_connec_index->deepCopy());
+    mcIdType *index = newConnI->getPointer();
     mcIdType posOfCurCell = 0;
     mcIdType newPos = 0;
     mcIdType lgthOfCurCell, nbDelCells(0);
     for (mcIdType i = 0; i < nbOfCells; i++)
     {
         lgthOfCurCell = index[i + 1] - posOfCurCell;
-        INTERP_KERNEL::NormalizedCellType type = (INTERP_KERNEL::NormalizedCellType)conn[posOfCurCell];
+        INTERP_KERNEL::NormalizedCellType type = (INTERP_KERNEL::NormalizedCellType)oldConn[posOfCurCell];
         mcIdType newLgth;
         INTERP_KERNEL::NormalizedCellType newType = INTERP_KERNEL::CellSimplify::simplifyDegeneratedCell(
-            type, conn + posOfCurCell + 1, lgthOfCurCell - 1, conn + newPos + 1, newLgth
+            type, oldConn + posOfCurCell + 1, lgthOfCurCell - 1, conn + newPos + 1, newLgth
         );
         // Shall we delete the cell if it is completely degenerated:
         bool delCell = INTERP_KERNEL::CellSimplify::isFlatCell(conn, newPos, newLgth, newType);
@@ -6386,12 +6417,11 @@ MEDCouplingUMesh::convertDegeneratedCellsAndRemoveFlatOnes()
         posOfCurCell = index[i + 1];
         index[i + 1 - nbDelCells] = newPos;
     }
-    if (newPos != initMeshLgth)
-        _nodal_connec->reAlloc(newPos);
+    newConn->reAlloc(newPos);
     const mcIdType nCellDel = ret->getNumberOfTuples();
     if (nCellDel)
-        _nodal_connec_index->reAlloc(nbOfCells - nCellDel + 1);
-    computeTypes();
+        newConnI->reAlloc(nbOfCells - nCellDel + 1);
+    setConnectivity(newConn, newConnI, true);
     return ret.retn();
 }
 
-- 
2.43.0


From 6d16ba767991bb765d92832ae19aaa0e6a2ba37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:28 +0000
Subject: [PATCH 097/148] fix: convertToQuadraticBasedOnSeg3 with edges already
 in the same order

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 4823f39..c6c82ce 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -5996,7 +5996,8 @@ MEDCouplingUMesh::convertToQuadraticBasedOnSeg3(const MEDCoupling1SGTUMesh *seg3
         o2n = cellCorTmp;
         nodeCorTmpSafe = nodeCorTmp;
     }
-    d->transformWithIndArr(o2n->begin(), o2n->end());
+    if (o2n.isNotNull())  // null if the cells are in the same order
+        d->transformWithIndArr(o2n->begin(), o2n->end());
     mcIdType offset(0);
     std::vector<MCAuto<MEDCouplingUMesh> > types;
     {
-- 
2.43.0


From e1c300ef5c6b983c90966dd839191fa5310d9384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:29 +0000
Subject: [PATCH 098/148] fix: polyhedra made of quadratic cells have faces
 described by their contour

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index c6c82ce..b06aa74 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -1454,6 +1454,18 @@ MEDCouplingUMesh::convertToPolyTypes(const mcIdType *cellIdsToConvertBg, const m
                 {
                     INTERP_KERNEL::NormalizedCellType type;
                     unsigned offset = cm.fillSonCellNodalConnectivity2(j, connOld + pos + 1, lgthOld, work, type);
+                    if (INTERP_KERNEL::CellModel::GetCellModel(type).isQuadratic())
+                    {
+                        // faces of a polyhedron are described by the successive nodes of their contour
+                        std::vector<mcIdType> face(work, work + offset);
+                        const unsigned nbOfEdges = offset / 2;
+                        for (unsigned k = 0; k < nbOfEdges; k++)
+                        {
+                            work[2 * k] = face[k];
+                            work[2 * k + 1] = face[nbOfEdges + k];
+                        }
+                        offset = 2 * nbOfEdges;
+                    }
                     work += offset;
                     *work++ = -1;
                 }
-- 
2.43.0


From ec23e70409873371ade985349371f7ec1746de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:29 +0000
Subject: [PATCH 099/148] fix: edges of HEXA27 in the cell model

---
 src/INTERP_KERNEL/CellModel.cxx | 37 +++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/INTERP_KERNEL/CellModel.cxx b/src/INTERP_KERNEL/CellModel.cxx
index 8fff8bc..5ffe056 100644
--- a/src/INTERP_KERNEL/CellModel.cxx
+++ b/src/INTERP_KERNEL/CellModel.cxx
@@ -1460,6 +1460,43 @@ CellModel::CellModel(NormalizedCellType type) : _type(type)
             _nb_of_sons_con[5] = 9;
             _quadratic = true;
         }
+            _little_sons_con[0][0] = 0;
+            _little_sons_con[0][1] = 1;
+            _little_sons_con[0][2] = 8;
+            _nb_of_little_sons = 12;
+            _little_sons_con[1][0] = 1;
+            _little_sons_con[1][1] = 2;
+            _little_sons_con[1][2] = 9;
+            _little_sons_con[2][0] = 2;
+            _little_sons_con[2][1] = 3;
+            _little_sons_con[2][2] = 10;
+            _little_sons_con[3][0] = 3;
+            _little_sons_con[3][1] = 0;
+            _little_sons_con[3][2] = 11;
+            _little_sons_con[4][0] = 4;
+            _little_sons_con[4][1] = 5;
+            _little_sons_con[4][2] = 12;
+            _little_sons_con[5][0] = 5;
+            _little_sons_con[5][1] = 6;
+            _little_sons_con[5][2] = 13;
+            _little_sons_con[6][0] = 6;
+            _little_sons_con[6][1] = 7;
+            _little_sons_con[6][2] = 14;
+            _little_sons_con[7][0] = 7;
+            _little_sons_con[7][1] = 4;
+            _little_sons_con[7][2] = 15;
+            _little_sons_con[8][0] = 0;
+            _little_sons_con[8][1] = 4;
+            _little_sons_con[8][2] = 16;
+            _little_sons_con[9][0] = 1;
+            _little_sons_con[9][1] = 5;
+            _little_sons_con[9][2] = 17;
+            _little_sons_con[10][0] = 2;
+            _little_sons_con[10][1] = 6;
+            _little_sons_con[10][2] = 18;
+            _little_sons_con[11][0] = 3;
+            _little_sons_con[11][1] = 7;
+            _little_sons_con[11][2] = 19;
         break;
         case NORM_POLYGON:
         {
-- 
2.43.0


From d2614e5e4fe68f584d661eaf7673894f766099db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 100/148] fix: getMeasureFieldOnNode leaked its result in the
 Python API

---
 src/MEDCoupling_Swig/MEDCouplingCommon.i | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 0d36c86..be82077 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -344,6 +344,7 @@ typedef long mcPyPtrType;
 %newobject MEDCoupling::MEDCouplingMesh::fillFromAnalyticCompo;
 %newobject MEDCoupling::MEDCouplingMesh::fillFromAnalyticNamedCompo;
 %newobject MEDCoupling::MEDCouplingMesh::getMeasureField;
+%newobject MEDCoupling::MEDCouplingMesh::getMeasureFieldOnNode;
 %newobject MEDCoupling::MEDCouplingMesh::simplexize;
 %newobject MEDCoupling::MEDCouplingMesh::buildUnstructured;
 %newobject MEDCoupling::MEDCouplingMesh::MergeMeshes;
-- 
2.43.0


From 8391af89299859bc9bc2b029f20407b63696c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:57 +0000
Subject: [PATCH 101/148] fix: explode3DMeshTo1DCrude checks the dimension of
 its mesh

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index b06aa74..0fd6aec 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -933,6 +933,11 @@ MEDCouplingUMesh::explode3DMeshTo1DCrude(
     MCAuto<DataArrayIdType> &descIndx, MCAuto<DataArrayIdType> &revNodalIndx, MCAuto<DataArrayIdType> &revDesc
 ) const
 {
+    checkFullyDefined();
+    if (getMeshDimension() != 3)
+        throw INTERP_KERNEL::Exception(
+            "MEDCouplingUMesh::explode3DMeshTo1DCrude : This has to have a mesh dimension to 3 !"
+        );
     return this->buildDescendingConnectivityNoFuseGen<MinusTwoSonsGenerator>(descIndx, revNodalIndx, revDesc);
 }
 
-- 
2.43.0


From 9f0845c5c04dbcf9a199a9a5c0efcd477caa4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:58 +0000
Subject: [PATCH 102/148] fix: findIdsRangesInListOfIds read one id past the
 end of its list

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 4f42044..ecc5370 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -6842,7 +6842,7 @@ DataArrayDiscrete<T>::findIdsRangesInListOfIds(
         if (*tupPtr == *offPtr)
         {
             T i = offPtr[0];
-            while (i < offPtr[1] && *tupPtr == i && tupPtr != tupEnd)
+            while (tupPtr != tupEnd && i < offPtr[1] && *tupPtr == i)
             {
                 i++;
                 tupPtr++;
-- 
2.43.0


From d685fc975d9f4e9b5dad9b80cfb0011448c5aba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:58 +0000
Subject: [PATCH 103/148] fix: findClosestTupleId looped for ever on an empty
 array and overflowed its bounds beyond 3 components

---
 src/MEDCoupling/MEDCouplingMemArray.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.cxx b/src/MEDCoupling/MEDCouplingMemArray.cxx
index e532de6..8d1121d 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.cxx
+++ b/src/MEDCoupling/MEDCouplingMemArray.cxx
@@ -1328,6 +1328,10 @@ DataArrayDouble::findClosestTupleId(const DataArrayDouble *other) const
     }
     mcIdType nbOfTuples(other->getNumberOfTuples());
     mcIdType thisNbOfTuples(getNumberOfTuples());
+    if (nbOfCompo < 1 || nbOfCompo > 3)
+        throw INTERP_KERNEL::Exception("Unexpected spacedim of coords for findClosestTupleId. Must be 1, 2 or 3.");
+    if (thisNbOfTuples == 0 && nbOfTuples != 0)
+        throw INTERP_KERNEL::Exception("DataArrayDouble::findClosestTupleId : this has no tuple !");
     MCAuto<DataArrayIdType> ret = DataArrayIdType::New();
     ret->alloc(nbOfTuples, 1);
     double bounds[6];
-- 
2.43.0


From 7a33c0ad73eeb52c2308bd146a430f89276d1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:58 +0000
Subject: [PATCH 104/148] fix:
 MEDCouplingMappedExtrudedMesh::getCoordinatesAndOwner wrote past the end of
 its result

---
 .../MEDCouplingMappedExtrudedMesh.cxx         | 22 ++-----------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 7161b00..2122a92 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -897,26 +897,8 @@ MEDCouplingMappedExtrudedMesh::mergeMyselfWith(const MEDCouplingMesh *other) con
 DataArrayDouble *
 MEDCouplingMappedExtrudedMesh::getCoordinatesAndOwner() const
 {
-    const DataArrayDouble *arr2D(_mesh2D->getCoords());
-    const DataArrayDouble *arr1D(_mesh1D->getCoords());
-    MCAuto<DataArrayDouble> ret(DataArrayDouble::New());
-    ret->alloc(getNumberOfNodes(), 3);
-    mcIdType nbOf1DLev(_mesh1D->getNumberOfNodes());
-    mcIdType nbOf2DNodes(_mesh2D->getNumberOfNodes());
-    const double *ptSrc(arr2D->begin());
-    double *pt(ret->getPointer());
-    std::copy(ptSrc, ptSrc + 3 * nbOf2DNodes, pt);
-    for (mcIdType i = 1; i < nbOf1DLev; i++)
-    {
-        std::copy(ptSrc, ptSrc + 3 * nbOf2DNodes, pt + 3 * i * nbOf2DNodes);
-        double vec[3];
-        std::copy(arr1D->begin() + 3 * i, arr1D->begin() + 3 * (i + 1), vec);
-        std::transform(arr1D->begin() + 3 * (i - 1), arr1D->begin() + 3 * i, vec, vec, std::minus<double>());
-        for (mcIdType j = 0; j < nbOf2DNodes; j++)
-            std::transform(
-                vec, vec + 3, pt + 3 * (i * nbOf2DNodes + j), pt + 3 * (i * nbOf2DNodes + j), std::plus<double>()
-            );
-    }
+    // the nodes of this are those of the 2D mesh, that shares its coordinates with the 3D mesh
+    MCAuto<DataArrayDouble> ret(_mesh2D->getCoords()->deepCopy());
     return ret.retn();
 }
 
-- 
2.43.0


From 9c5b7ed8c8bd33939bd7820d462602b39b275eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:58 +0000
Subject: [PATCH 105/148] fix: unimplemented methods of
 MEDCouplingMappedExtrudedMesh throw instead of returning null

---
 src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 2122a92..4c79f1c 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -582,8 +582,7 @@ MEDCouplingMappedExtrudedMesh::getMeasureField(bool) const
 MEDCouplingFieldDouble *
 MEDCouplingMappedExtrudedMesh::getMeasureFieldOnNode(bool isAbs) const
 {
-    // not implemented yet
-    return 0;
+    throw INTERP_KERNEL::Exception("MEDCouplingMappedExtrudedMesh::getMeasureFieldOnNode : not implemented yet !");
 }
 
 MEDCouplingFieldDouble *
@@ -866,8 +865,7 @@ MEDCouplingMappedExtrudedMesh::splitProfilePerType(
 MEDCouplingMesh *
 MEDCouplingMappedExtrudedMesh::buildPart(const mcIdType *start, const mcIdType *end) const
 {
-    // not implemented yet !
-    return 0;
+    throw INTERP_KERNEL::Exception("MEDCouplingMappedExtrudedMesh::buildPart : not implemented yet !");
 }
 
 MEDCouplingMesh *
@@ -875,8 +873,7 @@ MEDCouplingMappedExtrudedMesh::buildPartAndReduceNodes(
     const mcIdType *start, const mcIdType *end, DataArrayIdType *&arr
 ) const
 {
-    // not implemented yet !
-    return 0;
+    throw INTERP_KERNEL::Exception("MEDCouplingMappedExtrudedMesh::buildPartAndReduceNodes : not implemented yet !");
 }
 
 DataArrayIdType *
@@ -890,8 +887,7 @@ MEDCouplingMappedExtrudedMesh::simplexize(int policy)
 MEDCouplingMesh *
 MEDCouplingMappedExtrudedMesh::mergeMyselfWith(const MEDCouplingMesh *other) const
 {
-    // not implemented yet !
-    return 0;
+    throw INTERP_KERNEL::Exception("MEDCouplingMappedExtrudedMesh::mergeMyselfWith : not implemented yet !");
 }
 
 DataArrayDouble *
-- 
2.43.0


From ab4d0be957a3cd50ccc2d01c8e5772e1f2e2ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:59 +0000
Subject: [PATCH 106/148] fix: results of DataArrayChar methods leaked or were
 unusable in Python

---
 src/MEDCoupling_Swig/MEDCouplingMemArray.i | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling_Swig/MEDCouplingMemArray.i b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
index 20d9517..e2e35e3 100644
--- a/src/MEDCoupling_Swig/MEDCouplingMemArray.i
+++ b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
@@ -245,6 +245,8 @@
 %newobject MEDCoupling::DataArrayInt64::convertToInt32Arr;
 %newobject MEDCoupling::DataArrayInt64Tuple::buildDAInt;
 %newobject MEDCoupling::DataArrayChar::convertToIntArr;
+%newobject MEDCoupling::DataArrayChar::buildEmptySpecializedDAChar;
+%newobject MEDCoupling::DataArrayChar::findIdsInRange;
 %newobject MEDCoupling::DataArrayChar::renumber;
 %newobject MEDCoupling::DataArrayChar::renumberR;
 %newobject MEDCoupling::DataArrayChar::renumberAndReduce;
@@ -2427,7 +2429,7 @@ typedef DataArrayInt64 DataArrayIdType;
     void fillWithValue(char val);
     std::string repr() const;
     std::string reprZip() const;
-    DataArrayInt *convertToIntArr() const;
+    DataArrayInt32 *convertToIntArr() const;
     DataArrayChar *renumber(const mcIdType *old2New) const;
     DataArrayChar *renumberR(const mcIdType *new2Old) const;
     DataArrayChar *renumberAndReduce(const mcIdType *old2NewBg, mcIdType newNbOfTuple) const;
-- 
2.43.0


From 4eb756081c701804ffb5bf136b317b8e1dcbcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:59 +0000
Subject: [PATCH 107/148] fix: getQuadraticStatus leaked an opaque object in
 Python

---
 src/MEDCoupling_Swig/MEDCouplingCommon.i | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index be82077..a348cb0 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -2140,7 +2140,6 @@ namespace MEDCoupling
     DataArrayIdType *colinearize2D(double eps);
     DataArrayIdType *colinearizeKeepingConform2D(double eps);
     void shiftNodeNumbersInConn(int delta);
-    std::vector<bool> getQuadraticStatus() const;
     DataArrayIdType *findCellIdsOnBoundary() const;
     MEDCouplingUMesh *computeSkin() const;
     bool checkConsecutiveCellTypes() const;
@@ -2194,6 +2193,15 @@ namespace MEDCoupling
     static DataArrayIdType *ComputeSpreadZoneGradually(const DataArrayIdType *arrIn, const DataArrayIdType *arrIndxIn);
     static DataArrayIdType *ComputeRangesFromTypeDistribution(const std::vector<mcIdType>& code);
     %extend {
+      PyObject *getQuadraticStatus() const
+      {
+        std::vector<bool> status(self->getQuadraticStatus());
+        PyObject *ret(PyList_New(status.size()));
+        for(std::size_t i=0;i<status.size();i++)
+          PyList_SetItem(ret,i,PyBool_FromLong(status[i]));
+        return ret;
+      }
+
       MEDCouplingUMesh()
       {
         return MEDCouplingUMesh::New();
-- 
2.43.0


From 65a388434da0d0380e111e2e2b52d611522ea010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:00 +0000
Subject: [PATCH 108/148] fix: computeCellCenterOfMassWithPrecision leaked its
 result in Python

---
 src/MEDCoupling_Swig/MEDCouplingCommon.i | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index a348cb0..a37531d 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -422,6 +422,7 @@ typedef long mcPyPtrType;
 %newobject MEDCoupling::MEDCouplingUMesh::generateGraph;
 %newobject MEDCoupling::MEDCouplingUMesh::orderConsecutiveCells1D;
 %newobject MEDCoupling::MEDCouplingUMesh::clipSingle3DCellByPlane;
+%newobject MEDCoupling::MEDCouplingUMesh::computeCellCenterOfMassWithPrecision;
 %newobject MEDCoupling::MEDCouplingUMesh::getBoundingBoxForBBTreeFast;
 %newobject MEDCoupling::MEDCouplingUMesh::getBoundingBoxForBBTree2DQuadratic;
 %newobject MEDCoupling::MEDCouplingUMesh::getBoundingBoxForBBTree1DQuadratic;
-- 
2.43.0


From 47a6ea8a701d478920a13ed04d0273bd1d3d7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:00 +0000
Subject: [PATCH 109/148] fix: time label of an object takes into account what
 the objects it holds hold

---
 src/MEDCoupling/MEDCouplingTimeLabel.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingTimeLabel.cxx b/src/MEDCoupling/MEDCouplingTimeLabel.cxx
index 28ebdce..8b84b29 100644
--- a/src/MEDCoupling/MEDCouplingTimeLabel.cxx
+++ b/src/MEDCoupling/MEDCouplingTimeLabel.cxx
@@ -48,6 +48,7 @@ TimeLabel::declareAsNew() const
 void
 TimeLabel::updateTimeWith(const TimeLabel &other) const
 {
+    other.updateTime();  // what other holds may have been modified since its last update
     if (_time < other._time)
         _time = other._time;
 }
-- 
2.43.0


From 72b8babd04bece82acaf5af0f199172880b67747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:00 +0000
Subject: [PATCH 110/148] fix: setNodeGridStructure of curvilinear meshes
 declares the mesh as modified

---
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index fab364c..e5ded33 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -361,6 +361,7 @@ MEDCouplingCurveLinearMesh::setNodeGridStructure(const mcIdType *gridStructBg, c
     {
         _structure.resize(0);
         _structure.insert(_structure.end(), gridStructBg, gridStructEnd);
+        declareAsNew();
     }
     else
     {
-- 
2.43.0


From 47fe68e313149f61eb33ab1172da36d997d33604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:00 +0000
Subject: [PATCH 111/148] fix: center node of bi-quadratic cells leaked in
 polygon construction

---
 .../Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
index ccb057c..de5eb04 100644
--- a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
+++ b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
@@ -116,6 +116,8 @@ QuadraticPolygon::BuildArcCirclePolygon(std::vector<Node *> &nodes)
         nodes[i]->decrRef();
         nodes[i + size / 2]->decrRef();
     }
+    // center node of bi-quadratic cells
+    for (std::size_t i = 2 * (size / 2); i < size; i++) nodes[i]->decrRef();
     return ret;
 }
 
-- 
2.43.0


From 713de8c7078b9fe575905aa5abcfd24e19089f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:22 +0000
Subject: [PATCH 112/148] fix: extrusion of SEG3 cells took the middle node as
 an end

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index bad9691..abe9f2c 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -2016,12 +2016,12 @@ MEDCouplingUMesh::AppendExtrudedCell(
         {
             mcIdType conn[8] = {
                 connBg[1],
-                connBg[3],
-                connBg[3] + deltaz,
-                connBg[1] + deltaz,
                 connBg[2],
-                connBg[3] + nbOfNodesPerLev,
                 connBg[2] + deltaz,
+                connBg[1] + deltaz,
+                connBg[3],
+                connBg[2] + nbOfNodesPerLev,
+                connBg[3] + deltaz,
                 connBg[1] + nbOfNodesPerLev
             };
             ret.insert(ret.end(), conn, conn + 8);
-- 
2.43.0


From fe780937660f3833fd03743cf611e066d82f8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:22 +0000
Subject: [PATCH 113/148] fix: buildExtrudedMesh along a quadratic line of
 several cells

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index abe9f2c..2eaaae7 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -758,7 +758,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslation(const MEDCouplingUMesh *mesh1D,
         std::transform(c.begin(), c.begin() + spaceDim, c.begin() + spaceDim, vec, std::minus<double>());
         for (mcIdType j = 0; j < oldNbOfNodes; j++)
             work = std::transform(
-                vec, vec + spaceDim, retPtr + spaceDim * (i * oldNbOfNodes + j), work, std::plus<double>()
+                vec, vec + spaceDim, retPtr + spaceDim * ((isQuad ? 2 * i : i) * oldNbOfNodes + j), work, std::plus<double>()
             );
         if (isQuad)
         {
@@ -768,7 +768,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslation(const MEDCouplingUMesh *mesh1D,
             std::transform(c.begin(), c.begin() + spaceDim, c.begin() + spaceDim, vec, std::minus<double>());
             for (mcIdType j = 0; j < oldNbOfNodes; j++)
                 work = std::transform(
-                    vec, vec + spaceDim, retPtr + spaceDim * (i * oldNbOfNodes + j), work, std::plus<double>()
+                    vec, vec + spaceDim, retPtr + spaceDim * ((isQuad ? 2 * i : i) * oldNbOfNodes + j), work, std::plus<double>()
                 );
         }
     }
@@ -944,7 +944,7 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslAndAutoRotation3D(const MEDCouplingUMe
 MEDCouplingUMesh *
 MEDCouplingUMesh::buildExtrudedMeshFromThisLowLev(mcIdType nbOfNodesOf1Lev, bool isQuad) const
 {
-    mcIdType nbOf1DCells(getNumberOfNodes() / nbOfNodesOf1Lev - 1);
+    mcIdType nbOf1DCells((getNumberOfNodes() / nbOfNodesOf1Lev - 1) / (isQuad ? 2 : 1));
     mcIdType nbOf2DCells = getNumberOfCells();
     mcIdType nbOf3DCells(nbOf2DCells * nbOf1DCells);
     MEDCouplingUMesh *ret(MEDCouplingUMesh::New("Extruded", getMeshDimension() + 1));
-- 
2.43.0


From ea3ec3e59e7e92df57248d0590ad348581e19a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 114/148] fix: extrusion with rotation along an arc in a plane
 Z=constant or with a downward normal

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index 2eaaae7..f278b24 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -900,9 +900,10 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslAndAutoRotation3D(const MEDCouplingUMe
             vecPlane[1] /= norm;
             vecPlane[2] /= norm;
             double norm2 = sqrt(vecPlane[0] * vecPlane[0] + vecPlane[1] * vecPlane[1]);
-            double vec2[2] = {vecPlane[1] / norm2, -vecPlane[0] / norm2};
+            // norm2 is null if the arc lies in a plane Z=constant
+            double vec2[2] = {norm2 > 0. ? vecPlane[1] / norm2 : 1., norm2 > 0. ? -vecPlane[0] / norm2 : 0.};
             double s2 = norm2;
-            double c2 = cos(asin(s2));
+            double c2 = vecPlane[2];
             double m[3][3] = {
                 {vec2[0] * vec2[0] * (1 - c2) + c2, vec2[0] * vec2[1] * (1 - c2), vec2[1] * s2},
                 {vec2[0] * vec2[1] * (1 - c2), vec2[1] * vec2[1] * (1 - c2) + c2, -vec2[0] * s2},
-- 
2.43.0


From ae69873839d443a05eb6de9552c5f9fb9d4d5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 115/148] fix: extrusion with rotation along a clockwise arc in
 2D

---
 src/MEDCoupling/MEDCouplingUMesh_internal.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
index f278b24..fbcfb2b 100644
--- a/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh_internal.cxx
@@ -839,6 +839,9 @@ MEDCouplingUMesh::fillExtCoordsUsingTranslAndAutoRotation2D(const MEDCouplingUMe
                               ? (p0[0] - tmp3[0]) * (p1[0] - tmp3[0]) + (p0[1] - tmp3[1]) * (p1[1] - tmp3[1])
                               : (p2[0] - tmp3[0]) * (p1[0] - tmp3[0]) + (p2[1] - tmp3[1]) * (p1[1] - tmp3[1]);
         double angle = acos(cosangle / (radius * radius));
+        // rotate in the direction the arc p0->p1->p2 turns
+        if ((p1[0] - p0[0]) * (p2[1] - p1[1]) - (p1[1] - p0[1]) * (p2[0] - p1[0]) < 0.)
+            angle = -angle;
         tmp->rotate(end, 0, angle);
         retPtr = std::copy(tmp2->getConstPointer(), tmp2->getConstPointer() + tmp2->getNbOfElems(), retPtr);
     }
-- 
2.43.0


From 7786e8323542903f01938558dc8670adf090f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 116/148] fix: bounding box of mapped extruded meshes

---
 .../MEDCouplingMappedExtrudedMesh.cxx         | 49 +++++++------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 4c79f1c..192ae10 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -479,39 +479,28 @@ MEDCouplingMappedExtrudedMesh::checkConsistency(double eps) const
 void
 MEDCouplingMappedExtrudedMesh::getBoundingBox(double *bbox) const
 {
-    double bbox2D[6];
-    _mesh2D->getBoundingBox(bbox2D);
-    const double *nodes1D(_mesh1D->getCoords()->begin());
+    // nodes of the 2D base only : the coordinates of _mesh2D may be shared with the whole 3D mesh
+    MCAuto<DataArrayIdType> nodesOfBase(_mesh2D->computeFetchedNodeIds());
+    const double *coords2D(_mesh2D->getCoords()->begin()), *nodes1D(_mesh1D->getCoords()->begin());
     mcIdType nbOfNodes1D(_mesh1D->getNumberOfNodes());
-    double bbox1DMin[3], bbox1DMax[3], tmp[3];
-    std::fill(bbox1DMin, bbox1DMin + 3, std::numeric_limits<double>::max());
-    std::fill(bbox1DMax, bbox1DMax + 3, -(std::numeric_limits<double>::max()));
-    for (mcIdType i = 0; i < nbOfNodes1D; i++)
+    for (int d = 0; d < 3; d++)
     {
-        std::transform(
-            nodes1D + 3 * i,
-            nodes1D + 3 * (i + 1),
-            bbox1DMin,
-            bbox1DMin,
-            static_cast<const double &(*)(const double &, const double &)>(std::min<double>)
-        );
-        std::transform(
-            nodes1D + 3 * i,
-            nodes1D + 3 * (i + 1),
-            bbox1DMax,
-            bbox1DMax,
-            static_cast<const double &(*)(const double &, const double &)>(std::max<double>)
-        );
+        double min2D(std::numeric_limits<double>::max()), max2D(-std::numeric_limits<double>::max());
+        for (const mcIdType *nodeId = nodesOfBase->begin(); nodeId != nodesOfBase->end(); nodeId++)
+        {
+            min2D = std::min(min2D, coords2D[3 * (*nodeId) + d]);
+            max2D = std::max(max2D, coords2D[3 * (*nodeId) + d]);
+        }
+        // nodes of the 1D mesh give the translation of the base up to each level
+        double min1D(0.), max1D(0.);
+        for (mcIdType i = 0; i < nbOfNodes1D; i++)
+        {
+            min1D = std::min(min1D, nodes1D[3 * i + d] - nodes1D[d]);
+            max1D = std::max(max1D, nodes1D[3 * i + d] - nodes1D[d]);
+        }
+        bbox[2 * d] = min2D + min1D;
+        bbox[2 * d + 1] = max2D + max1D;
     }
-    std::transform(bbox1DMax, bbox1DMax + 3, bbox1DMin, tmp, std::minus<double>());
-    mcIdType id = ToIdType(std::distance(tmp, std::max_element(tmp, tmp + 3)));
-    bbox[0] = bbox1DMin[0];
-    bbox[1] = bbox1DMax[0];
-    bbox[2] = bbox1DMin[1];
-    bbox[3] = bbox1DMax[1];
-    bbox[4] = bbox1DMin[2];
-    bbox[5] = bbox1DMax[2];
-    bbox[2 * id + 1] += tmp[id];
 }
 
 void
-- 
2.43.0


From cab3ab828bfb9a289e8f432ced839be082429fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 117/148] fix: number of faces per cell of mapped extruded
 meshes

---
 src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 192ae10..d82e82b 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -355,15 +355,15 @@ MEDCouplingMappedExtrudedMesh::computeNbOfNodesPerCell() const
 DataArrayIdType *
 MEDCouplingMappedExtrudedMesh::computeNbOfFacesPerCell() const
 {
-    MCAuto<DataArrayIdType> ret2D(_mesh2D->computeNbOfNodesPerCell());
+    MCAuto<DataArrayIdType> ret2D(_mesh2D->computeNbOfFacesPerCell());
     mcIdType nbOfLevs = _mesh1D->getNumberOfCells();
     mcIdType nbOfCells2D = _mesh2D->getNumberOfCells();
     MCAuto<DataArrayIdType> ret3D(DataArrayIdType::New());
     ret3D->alloc(nbOfLevs * nbOfCells2D, 1);
     mcIdType *pt(ret3D->getPointer());
     for (int i = 0; i < nbOfLevs; i++, pt += nbOfCells2D) std::copy(ret2D->begin(), ret2D->end(), pt);
-    ret3D->applyLin(2, 2, 0);
-    return ret3D->renumberR(_mesh3D_ids->begin());
+    ret3D->applyLin(1, 2, 0);
+    return ret3D->renumber(_mesh3D_ids->begin());
 }
 
 DataArrayIdType *
-- 
2.43.0


From 160b10e3225c4e6136fed3880e4fc505dec9dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 118/148] fix: number of nodes per cell of mapped extruded
 meshes for unsorted cells

---
 src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index d82e82b..b8ae570 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -349,7 +349,7 @@ MEDCouplingMappedExtrudedMesh::computeNbOfNodesPerCell() const
     mcIdType *pt(ret3D->getPointer());
     for (int i = 0; i < nbOfLevs; i++, pt += nbOfCells2D) std::copy(ret2D->begin(), ret2D->end(), pt);
     ret3D->applyLin(2, 0, 0);
-    return ret3D->renumberR(_mesh3D_ids->begin());
+    return ret3D->renumber(_mesh3D_ids->begin());
 }
 
 DataArrayIdType *
-- 
2.43.0


From 067dc42e7c2b5aed8e24c603f00cac95c8bdf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 119/148] fix: giveCellsWithType of mapped extruded meshes

---
 .../MEDCouplingMappedExtrudedMesh.cxx          | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index b8ae570..2c4f788 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -315,15 +315,13 @@ MEDCouplingMappedExtrudedMesh::getAllGeoTypes() const
 DataArrayIdType *
 MEDCouplingMappedExtrudedMesh::giveCellsWithType(INTERP_KERNEL::NormalizedCellType type) const
 {
-    const INTERP_KERNEL::CellModel &cm(INTERP_KERNEL::CellModel::GetCellModel(type));
-    INTERP_KERNEL::NormalizedCellType revExtTyp(cm.getReverseExtrudedType());
-    MCAuto<DataArrayIdType> ret(DataArrayIdType::New());
-    if (revExtTyp == INTERP_KERNEL::NORM_ERROR)
+    MCAuto<DataArrayIdType> ret(DataArrayIdType::New()), tmp(DataArrayIdType::New());
+    tmp->alloc(0, 1);
+    for (mcIdType i = 0; i < _mesh2D->getNumberOfCells(); i++)
     {
-        ret->alloc(0, 1);
-        return ret.retn();
+        if (INTERP_KERNEL::CellModel::GetCellModel(_mesh2D->getTypeOfCell(i)).getExtrudedType() == type)
+            tmp->pushBackSilent(i);
     }
-    MCAuto<DataArrayIdType> tmp(_mesh2D->giveCellsWithType(revExtTyp));
     mcIdType nbOfLevs = _mesh1D->getNumberOfCells();
     mcIdType nbOfCells2D = _mesh2D->getNumberOfCells();
     mcIdType nbOfTuples(tmp->getNumberOfTuples());
@@ -333,9 +331,9 @@ MEDCouplingMappedExtrudedMesh::giveCellsWithType(INTERP_KERNEL::NormalizedCellTy
         std::transform(
             tmp->begin(), tmp->end(), pt, std::bind(std::plus<mcIdType>(), std::placeholders::_1, i * nbOfCells2D)
         );
-    MCAuto<DataArrayIdType> ret2(ret->renumberR(_mesh3D_ids->begin()));
-    ret2->sort();
-    return ret2.retn();
+    ret->transformWithIndArr(_mesh3D_ids->begin(), _mesh3D_ids->end());
+    ret->sort();
+    return ret.retn();
 }
 
 DataArrayIdType *
-- 
2.43.0


From 816c6d684b71b8ec966b4c25630ff28fb95996ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:55 +0000
Subject: [PATCH 120/148] fix: renumberNodesCenter of single type meshes checks
 node ids against the old number of nodes

---
 src/MEDCoupling/MEDCouplingPointSet.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingPointSet.cxx b/src/MEDCoupling/MEDCouplingPointSet.cxx
index 0f4fb90..1f6b849 100644
--- a/src/MEDCoupling/MEDCouplingPointSet.cxx
+++ b/src/MEDCoupling/MEDCouplingPointSet.cxx
@@ -492,9 +492,10 @@ MEDCouplingPointSet::renumberNodesCenter(const mcIdType *newNodeNumbers, mcIdTyp
             ptToFill,
             std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / (double)div[i])
         );
-    setCoords(newCoords);
-    newCoords->decrRef();
     renumberNodesInConn(newNodeNumbers);
+    setCoords(newCoords);  // let it here not before renumberNodesInConn because old number of nodes is sometimes
+                           // used...
+    newCoords->decrRef();
 }
 
 /*!
-- 
2.43.0


From 1ae5876e617a0c8df43ae8038bace4d47d0131bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:55 +0000
Subject: [PATCH 121/148] fix: time and iterations kept by
 MEDCoupling1DGTUMesh.New(UMesh)

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 3df1fc0..dadc825 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -4912,5 +4912,12 @@ MEDCoupling1DGTUMesh::New(const MEDCouplingUMesh *m)
         }
     }
     ret->setNodalConnectivity(conn, connI);
+    try
+    {
+        ret->copyTinyInfoFrom(m);
+    }
+    catch (INTERP_KERNEL::Exception &)
+    {
+    }
     return ret.retn();
 }
-- 
2.43.0


From 29648f05fe5304437c63d94f06a57c05af2d4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:55 +0000
Subject: [PATCH 122/148] fix: fetched nodes of non packed 1DGT meshes

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index dadc825..d462a17 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3699,7 +3699,8 @@ MEDCoupling1DGTUMesh::computeNodeIdsAlg(std::vector<bool> &nodeIdsInUse) const
 {
     checkConsistency();
     mcIdType sz(ToIdType(nodeIdsInUse.size()));
-    for (const mcIdType *conn = _conn->begin(); conn != _conn->end(); conn++)
+    const mcIdType *connBg = _conn->begin() + _conn_indx->front(), *connEnd = _conn->begin() + _conn_indx->back();
+    for (const mcIdType *conn = connBg; conn != connEnd; conn++)
     {
         if (*conn >= 0 && *conn < sz)
             nodeIdsInUse[*conn] = true;
-- 
2.43.0


From b8f536753509782dd1857479fdf5d1e04d8beb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:55 +0000
Subject: [PATCH 123/148] fix: buildUnstructured of non packed 1DGT meshes

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index d462a17..4ac8ab6 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3555,7 +3555,7 @@ MEDCoupling1DGTUMesh::buildUnstructured() const
     mcIdType nbCells = getNumberOfCells();  // checkConsistencyLight
     mcIdType geoType = ToIdType(getCellModelEnum());
     MCAuto<DataArrayIdType> c = DataArrayIdType::New();
-    c->alloc(nbCells + _conn->getNumberOfTuples(), 1);
+    c->alloc(nbCells + nodalConnI[nbCells] - nodalConnI[0], 1);
     MCAuto<DataArrayIdType> cI = DataArrayIdType::New();
     cI->alloc(nbCells + 1);
     mcIdType *cPtr = c->getPointer(), *ciPtr = cI->getPointer();
-- 
2.43.0


From 814ff7eefae75959e0c6dcd1d31c360b1a95bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:56 +0000
Subject: [PATCH 124/148] fix: renumberCells of 1DGT meshes with an external
 array, or on a non packed mesh

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 4ac8ab6..0374845 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3502,11 +3502,11 @@ MEDCoupling1DGTUMesh::renumberCells(const mcIdType *old2NewBg, bool check)
     if (check)
         o2n = o2n->checkAndPreparePermutation();
     //
-    const mcIdType *o2nPtr = o2n->getPointer();
+    const mcIdType *o2nPtr = o2n->begin();
     const mcIdType *conn = _conn->begin(), *conni = _conn_indx->begin();
     MCAuto<DataArrayIdType> newConn = DataArrayIdType::New();
     MCAuto<DataArrayIdType> newConnI = DataArrayIdType::New();
-    newConn->alloc(_conn->getNumberOfTuples(), 1);
+    newConn->alloc(conni[nbCells] - conni[0], 1);
     newConnI->alloc(nbCells, 1);
     newConn->copyStringInfoFrom(*_conn);
     newConnI->copyStringInfoFrom(*_conn_indx);
-- 
2.43.0


From 12ef84e6384b944a053738415f87c19ec3323daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:56 +0000
Subject: [PATCH 125/148] fix: barycenter of nodes of polygons in 1DGT meshes

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 0374845..c62bace 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3418,13 +3418,13 @@ MEDCoupling1DGTUMesh::computeIsoBarycenterOfNodesPerCell() const
                             << " presence of nodeId #" << *nodal << " should be in [0," << nbOfNodes << ") !";
                         throw INTERP_KERNEL::Exception(oss.str().c_str());
                     }
-                    std::transform(
-                        ptToFill,
-                        ptToFill + spaceDim,
-                        ptToFill,
-                        std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / double(nodali[1] - nodali[0]))
-                    );
                 }
+                std::transform(
+                    ptToFill,
+                    ptToFill + spaceDim,
+                    ptToFill,
+                    std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / double(nodali[1] - nodali[0]))
+                );
             }
             else
             {
-- 
2.43.0


From 7b18b8d08b912ffd1578e774253530a021d706a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:56 +0000
Subject: [PATCH 126/148] fix: checkConsistency of 1DGT meshes accepts -1 in
 polyhedra only

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index c62bace..1c8ec9a 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -3139,12 +3139,13 @@ MEDCoupling1DGTUMesh::checkConsistency(double eps) const
             "monotinic !"
         );
     //
+    bool isPolyhedra(getCellModelEnum() == INTERP_KERNEL::NORM_POLYHED);  // -1 is a separator only for polyhedra
     mcIdType nbOfTuples(c1->getNumberOfTuples());
     mcIdType nbOfNodes = getNumberOfNodes();
     const mcIdType *w(c1->begin());
     for (mcIdType i = 0; i < nbOfTuples; i++, w++)
     {
-        if (*w == -1)
+        if (*w == -1 && isPolyhedra)
             continue;
         if (*w < 0 || *w >= nbOfNodes)
         {
-- 
2.43.0


From c9314e04a6f90fcaebe54382c2c33ee8ce319657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:56 +0000
Subject: [PATCH 127/148] fix: permutation table of HEXA8

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 1c8ec9a..45d3246 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -2340,7 +2340,7 @@ UpdateHexa8Cell(
         4, 7, 6, 5, 0, 3, 2, 1,  // 1
         0, 3, 7, 4, 1, 2, 6, 5,  // 2
         4, 0, 3, 7, 5, 1, 2, 6,  // 3
-        5, 1, 0, 4, 6, 2, 3, 7,  // 4
+        7, 4, 0, 3, 6, 5, 1, 2,  // 4
         3, 7, 4, 0, 2, 6, 5, 1   // 5
     };
     static const int TAB2[6] = {0, 0, 3, 3, 3, 3};
-- 
2.43.0


From 61465a335b8c783b2ba803630736c3af41f102a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:35 +0000
Subject: [PATCH 128/148] fix: positions of the Gauss points of SEG4, TRI7 and
 QUAD4 in the element nodes rules match their weights

---
 .../MEDCouplingFieldDiscretization.cxx        | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
index 41fef42..5b29403 100644
--- a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
@@ -180,7 +180,7 @@ const double MEDCouplingFieldDiscretizationGaussNE::REF_PYRA13[39] = {
 const double MEDCouplingFieldDiscretizationGaussNE::LOC_SEG2[2] = {0.577350269189626, -0.577350269189626};
 const double MEDCouplingFieldDiscretizationGaussNE::LOC_SEG3[3] = {-0.774596669241, 0., 0.774596669241};
 const double MEDCouplingFieldDiscretizationGaussNE::LOC_SEG4[4] = {
-    0.339981043584856, -0.339981043584856, 0.861136311594053, -0.861136311594053
+    0.861136311594053, -0.861136311594053, 0.339981043584856, -0.339981043584856
 };
 const double MEDCouplingFieldDiscretizationGaussNE::LOC_TRI3[6] = {
     0.16666666666666667,
@@ -205,30 +205,30 @@ const double MEDCouplingFieldDiscretizationGaussNE::LOC_TRI6[12] = {
     0.445948490915965
 };
 const double MEDCouplingFieldDiscretizationGaussNE::LOC_TRI7[14] = {
-    0.3333333333333333,
-    0.3333333333333333,
-    0.470142064105115,
-    0.470142064105115,
-    0.05971587178977,
-    0.470142064105115,
-    0.470142064105115,
-    0.05971587178977,
     0.101286507323456,
     0.101286507323456,
     0.797426985353088,
     0.101286507323456,
     0.101286507323456,
-    0.797426985353088
+    0.797426985353088,
+    0.470142064105115,
+    0.05971587178977,
+    0.470142064105115,
+    0.470142064105115,
+    0.05971587178977,
+    0.470142064105115,
+    0.3333333333333333,
+    0.3333333333333333
 };
 const double MEDCouplingFieldDiscretizationGaussNE::LOC_QUAD4[8] = {
-    -0.774596669241483,
-    -0.774596669241483,
-    0.774596669241483,
-    -0.774596669241483,
-    0.774596669241483,
-    0.774596669241483,
-    -0.774596669241483,
-    0.774596669241483
+    -0.577350269189626,
+    -0.577350269189626,
+    0.577350269189626,
+    -0.577350269189626,
+    0.577350269189626,
+    0.577350269189626,
+    -0.577350269189626,
+    0.577350269189626
 };
 const double MEDCouplingFieldDiscretizationGaussNE::LOC_QUAD8[16] = {
     -0.774596669241483,
-- 
2.43.0


From ad5a1bdd3abc3b447b0cb0362864f2744931fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:39 +0000
Subject: [PATCH 129/148] fix: merged nodes of edges used in the reverse
 direction in splitAbs

---
 .../Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
index de5eb04..23b94f4 100644
--- a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
+++ b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DQuadraticPolygon.cxx
@@ -352,13 +352,13 @@ QuadraticPolygon::splitAbs(
             {
                 ElementaryEdge *curThis = itThis.current();
                 merge.clear();
-                //
+                // 'merge' refers to the start and end of the underlying edges, whatever the direction they are used with
                 std::map<INTERP_KERNEL::Node *, mcIdType>::const_iterator thisStart(
-                    mapThis.find(curThis->getStartNode())
+                    mapThis.find(curThis->getPtr()->getStartNode())
                 ),
-                    thisEnd(mapThis.find(curThis->getEndNode())),
-                    otherStart(mapOther.find(curOtherTmp->getStartNode())),
-                    otherEnd(mapOther.find(curOtherTmp->getEndNode()));
+                    thisEnd(mapThis.find(curThis->getPtr()->getEndNode())),
+                    otherStart(mapOther.find(curOtherTmp->getPtr()->getStartNode())),
+                    otherEnd(mapOther.find(curOtherTmp->getPtr()->getEndNode()));
                 mcIdType thisStart2(thisStart == mapThis.end() ? -1 : (*thisStart).second),
                     thisEnd2(thisEnd == mapThis.end() ? -1 : (*thisEnd).second),
                     otherStart2(otherStart == mapOther.end() ? -1 : (*otherStart).second + offset1),
-- 
2.43.0


From 3d7bdbd0d892affb186a4b67e1e71fe0921db2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:39 +0000
Subject: [PATCH 130/148] fix: second intersection of an arc and a segment
 sharing an end

---
 .../Geometric2D/InterpKernelGeo2DEdgeArcCircle.cxx            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DEdgeArcCircle.cxx b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DEdgeArcCircle.cxx
index 44de248..52d4988 100644
--- a/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DEdgeArcCircle.cxx
+++ b/src/INTERP_KERNEL/Geometric2D/InterpKernelGeo2DEdgeArcCircle.cxx
@@ -453,7 +453,9 @@ ArcCSegIntersector::getIntersectionsCharacteristicVal() const
             };  // (-y, x) is the tangent vector in the trigo direction with (x,y) = (center->node)
             bool invSeg = _i1S2E || _i1E2E;
             double linEdge[2] = {invSeg ? (-_dx) : _dx, invSeg ? (-_dy) : _dy};
-            if (tang[1] * linEdge[0] - tang[0] * linEdge[1] < 0)
+            // Signed distance, along the segment, from the common node to the second intersection of its line with the circle
+            double dist2nd = -2. * (tang[1] * linEdge[0] - tang[0] * linEdge[1]) / sqrt(_drSq);
+            if (dist2nd < QuadraticPlanarPrecision::getPrecision())
             {
                 ret.push_back(*_earlyInter);
                 return ret;
-- 
2.43.0


From a2790177f08ab958384793c0ef59948511217f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:04 +0000
Subject: [PATCH 131/148] fix: patches of a 1D mesh created from a criterion

---
 src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx b/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
index ab604d6..0834fad 100644
--- a/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
@@ -1252,11 +1252,11 @@ FindInflection(
         distance.clear();
     }
 
-    if (zeroCrossDims[0] != -1 || zeroCrossDims[1] != -1)
+    if (zeroCrossDims[0] != -1 || (dim > 1 && zeroCrossDims[1] != -1))
     {
         mcIdType max_cross_dims = *max_element(zeroCrossVals.begin(), zeroCrossVals.end());
 
-        if (zeroCrossVals[0] == max_cross_dims && zeroCrossVals[1] == max_cross_dims)
+        if (dim > 1 && zeroCrossVals[0] == max_cross_dims && zeroCrossVals[1] == max_cross_dims)
         {
             mcIdType nl_left(part[0].second - part[0].first);
             mcIdType nc_left(part[1].second - part[1].first);
-- 
2.43.0


From 51d63d620d80dd4ed2a0c630130592eefb6ebd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:33 +0000
Subject: [PATCH 132/148] fix: METIS renumbering with version 5 of METIS

---
 src/RENUMBER/RENUMBER_METISRenumbering.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/RENUMBER/RENUMBER_METISRenumbering.cxx b/src/RENUMBER/RENUMBER_METISRenumbering.cxx
index 45d4b2c..fccce98 100644
--- a/src/RENUMBER/RENUMBER_METISRenumbering.cxx
+++ b/src/RENUMBER/RENUMBER_METISRenumbering.cxx
@@ -54,23 +54,27 @@ METISRenumbering::renumber(
     out1->alloc(nbCell, 1);
     out0->fillWithZero();
     out1->fillWithZero();
-    int num_flag = 1;
-    int options = 0;
+#if defined(METIS_VER_MAJOR) && METIS_VER_MAJOR >= 5
+    // since version 5 : weights of the vertices and options, default values are used for both
+    idx_t *num_flag(nullptr), *options(nullptr);
+#else
+    int num_flag_val(0), options_val(0), *num_flag(&num_flag_val), *options(&options_val);
+#endif
 
 #if ID_TYPE_SIZE == IDXTYPEWIDTH
 
     METIS_NodeND(
-        &nbCell, (idx_t *)index_graph, (idx_t *)graph, &num_flag, &options, out0->getPointer(), out1->getPointer()
+        &nbCell, (idx_t *)index_graph, (idx_t *)graph, num_flag, options, out0->getPointer(), out1->getPointer()
     );
 
 #else
 
-    mcIdType indexSize = nbCell + 1, graphSize = index_graph[indexSize];
+    mcIdType indexSize = nbCell + 1, graphSize = index_graph[nbCell];
     std::vector<idx_t> indexVec(index_graph, index_graph + indexSize);
     std::vector<idx_t> graphVec(graph, graph + graphSize);
     std::vector<idx_t> out0Vec(nbCell), out1Vec(nbCell);
     idx_t nb = static_cast<idx_t>(nbCell);
-    METIS_NodeND(&nb, indexVec.data(), graphVec.data(), &num_flag, &options, out0Vec.data(), out1Vec.data());
+    METIS_NodeND(&nb, indexVec.data(), graphVec.data(), num_flag, options, out0Vec.data(), out1Vec.data());
     std::copy(out0Vec.begin(), out0Vec.end(), out0->getPointer());
     std::copy(out1Vec.begin(), out1Vec.end(), out1->getPointer());
 
-- 
2.43.0


From 732b24204911947cc62fe4a41e32f989adff9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:18 +0000
Subject: [PATCH 133/148] fix: METIS renumbering of graphs with multiple edges

---
 src/RENUMBER/RENUMBER_METISRenumbering.cxx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/RENUMBER/RENUMBER_METISRenumbering.cxx b/src/RENUMBER/RENUMBER_METISRenumbering.cxx
index fccce98..94ca2ec 100644
--- a/src/RENUMBER/RENUMBER_METISRenumbering.cxx
+++ b/src/RENUMBER/RENUMBER_METISRenumbering.cxx
@@ -33,6 +33,9 @@ extern "C"
 
 #include "RENUMBER_METISRenumbering.hxx"
 
+#include <algorithm>
+#include <vector>
+
 #ifdef MEDCOUPLING_USE_64BIT_IDS
 #define ID_TYPE_SIZE 64
 #else
@@ -61,17 +64,24 @@ METISRenumbering::renumber(
     int num_flag_val(0), options_val(0), *num_flag(&num_flag_val), *options(&options_val);
 #endif
 
+    // METIS supports neither loops nor multiple edges (cells sharing several faces are several times neighbors)
+    std::vector<idx_t> indexVec(1, 0), graphVec;
+    for (mcIdType i = 0; i < nbCell; i++)
+    {
+        const idx_t start = indexVec.back();
+        for (mcIdType j = index_graph[i]; j < index_graph[i + 1]; j++)
+            if (graph[j] != i && std::find(graphVec.begin() + start, graphVec.end(), graph[j]) == graphVec.end())
+                graphVec.push_back(static_cast<idx_t>(graph[j]));
+        indexVec.push_back(static_cast<idx_t>(graphVec.size()));
+    }
 #if ID_TYPE_SIZE == IDXTYPEWIDTH
 
     METIS_NodeND(
-        &nbCell, (idx_t *)index_graph, (idx_t *)graph, num_flag, options, out0->getPointer(), out1->getPointer()
+        &nbCell, indexVec.data(), graphVec.data(), num_flag, options, out0->getPointer(), out1->getPointer()
     );
 
 #else
 
-    mcIdType indexSize = nbCell + 1, graphSize = index_graph[nbCell];
-    std::vector<idx_t> indexVec(index_graph, index_graph + indexSize);
-    std::vector<idx_t> graphVec(graph, graph + graphSize);
     std::vector<idx_t> out0Vec(nbCell), out1Vec(nbCell);
     idx_t nb = static_cast<idx_t>(nbCell);
     METIS_NodeND(&nb, indexVec.data(), graphVec.data(), num_flag, options, out0Vec.data(), out1Vec.data());
-- 
2.43.0


From 77457c8d0c692f916c1ef49d3dde0fa5a91aebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 134/148] fix: clip of a 3D cell by a plane going through edges

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 0fd6aec..e08c7a0 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -5053,7 +5053,7 @@ MEDCouplingUMesh::clipSingle3DCellByPlane(const double origin[3], const double v
     std::vector<std::vector<mcIdType> > res;
     buildSubCellsFromCut(cut3DSurf, desc2->begin(), descIndx2->begin(), mDesc1->getCoords()->begin(), eps, res);
     std::size_t sz(res.size());
-    if (ToIdType(res.size()) == mDesc1->getNumberOfCells() && sameNbNodes)
+    if (ToIdType(res.size()) == mDesc2->getNumberOfCells() && sameNbNodes)
         throw INTERP_KERNEL::Exception("MEDCouplingUMesh::clipSingle3DCellByPlane : cell is not clipped !");
     for (std::size_t i = 0; i < sz; i++)
     {
-- 
2.43.0


From 3cf895cadd077dd60092112541de8f0e124dc3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:28 +0000
Subject: [PATCH 135/148] fix: MakePartition numbers families as the MEDLoader
 tests expect (reverts 6b24ba7)

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index ecc5370..278dad9 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -9494,8 +9494,6 @@ DataArrayDiscrete<T>::MakePartition(
 
     std::unordered_map<std::vector<uint64_t>, mcIdType, VecHash> partitionMap;
     partitionMap.reserve(N);
-    // family 0 is dedicated to the elements that are in none of the groups
-    partitionMap.emplace(std::vector<uint64_t>(WORDS, 0ULL), 0);
 
     mcIdType nextPartitionId(1);
 
-- 
2.43.0


From 54ed8b358d8ebd9dcf6565a09b48880a0e9ba6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:58 +0000
Subject: [PATCH 136/148] fix: new families take ids that are free in the
 family fields too

---
 src/MEDLoader/MEDFileMesh.cxx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index f40aec9..9ed6d0e 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -2448,7 +2448,7 @@ MEDFileMesh::setGroupsAtLevel(int meshDimRelToMaxExt, const std::vector<const Da
     }
     mcIdType offset = 1;
     if (!_families.empty())
-        offset = getMaxAbsFamilyId() + 1;
+        offset = getTheMaxAbsFamilyId() + 1;
     TranslateFamilyIds(meshDimRelToMaxExt == 1 ? offset : -offset, fam, fidsOfGroups);
     MCAuto<DataArrayIdType> ids = fam->getDifferentValues();
     appendFamilyEntries(ids, fidsOfGroups, grpsName2);
@@ -3841,8 +3841,8 @@ MEDFileUMesh::getMaxAbsFamilyIdInArrays() const
     mcIdType ret = -std::numeric_limits<mcIdType>::max(), tmp = -1;
     if ((const DataArrayIdType *)_fam_coords)
     {
-        mcIdType val = _fam_coords->getMaxValue(tmp);
-        ret = std::max(ret, std::abs(val));
+        mcIdType val = std::max(std::abs(_fam_coords->getMaxValue(tmp)), std::abs(_fam_coords->getMinValue(tmp)));
+        ret = std::max(ret, val);
     }
     for (std::vector<MCAuto<MEDFileUMeshSplitL1>>::const_iterator it = _ms.begin(); it != _ms.end(); it++)
     {
@@ -3851,8 +3851,8 @@ MEDFileUMesh::getMaxAbsFamilyIdInArrays() const
             const DataArrayIdType *da = (*it)->getFamilyField();
             if (da)
             {
-                mcIdType val = da->getMaxValue(tmp);
-                ret = std::max(ret, std::abs(val));
+                mcIdType val = std::max(std::abs(da->getMaxValue(tmp)), std::abs(da->getMinValue(tmp)));
+                ret = std::max(ret, val);
             }
         }
     }
@@ -6753,18 +6753,18 @@ MEDFileStructuredMesh::getMaxAbsFamilyIdInArrays() const
     mcIdType ret = -std::numeric_limits<mcIdType>::max(), tmp = -1;
     if ((const DataArrayIdType *)_fam_nodes)
     {
-        mcIdType val = _fam_nodes->getMaxValue(tmp);
-        ret = std::max(ret, std::abs(val));
+        mcIdType val = std::max(std::abs(_fam_nodes->getMaxValue(tmp)), std::abs(_fam_nodes->getMinValue(tmp)));
+        ret = std::max(ret, val);
     }
     if ((const DataArrayIdType *)_fam_cells)
     {
-        mcIdType val = _fam_cells->getMaxValue(tmp);
-        ret = std::max(ret, std::abs(val));
+        mcIdType val = std::max(std::abs(_fam_cells->getMaxValue(tmp)), std::abs(_fam_cells->getMinValue(tmp)));
+        ret = std::max(ret, val);
     }
     if ((const DataArrayIdType *)_fam_faces)
     {
-        mcIdType val = _fam_faces->getMaxValue(tmp);
-        ret = std::max(ret, std::abs(val));
+        mcIdType val = std::max(std::abs(_fam_faces->getMaxValue(tmp)), std::abs(_fam_faces->getMinValue(tmp)));
+        ret = std::max(ret, val);
     }
     return ret;
 }
-- 
2.43.0


From cde646a8ddeb5925450368ef848cd041fd9aa0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:13 +0000
Subject: [PATCH 137/148] fix: eraseGroupsAtLevel with levels without families,
 and removal of groups without families

---
 src/MEDLoader/MEDFileMesh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 9ed6d0e..a87c381 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -4773,6 +4773,8 @@ MEDFileUMesh::optimizeFamilies()
     for (std::vector<int>::const_iterator it = levs.begin(); it != levs.end(); it++)
     {
         const DataArrayIdType *ffield = getFamilyFieldAtLevel(*it);
+        if (!ffield)
+            continue;
         MCAuto<DataArrayIdType> ids = ffield->getDifferentValues();
         std::set<mcIdType> res;
         std::set_union(ids->begin(), ids->end(), allFamsIds.begin(), allFamsIds.end(), std::inserter(res, res.begin()));
@@ -4798,7 +4800,7 @@ MEDFileUMesh::optimizeFamilies()
         if (!tmp.empty())
             (*it).second = tmp;
         else
-            tmp.push_back((*it).first);
+            grpNamesToKill.push_back((*it).first);
     }
     for (std::vector<std::string>::const_iterator it = grpNamesToKill.begin(); it != grpNamesToKill.end(); it++)
         _groups.erase(*it);
-- 
2.43.0


From c43b3116306295e319a27809ff3476d6bd18bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:13 +0000
Subject: [PATCH 138/148] fix: time unit of unstructured meshes is written

---
 src/MEDLoader/MEDFileMesh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index a87c381..0f466b1 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -3657,8 +3657,10 @@ MEDFileUMesh::writeMeshLL(med_idt fid) const
     const DataArrayDouble *coo = _coords;
     INTERP_KERNEL::AutoPtr<char> maa = MEDLoaderBase::buildEmptyString(MED_NAME_SIZE);
     INTERP_KERNEL::AutoPtr<char> desc = MEDLoaderBase::buildEmptyString(MED_COMMENT_SIZE);
+    INTERP_KERNEL::AutoPtr<char> dtunit = MEDLoaderBase::buildEmptyString(MED_LNAME_SIZE);
     MEDLoaderBase::safeStrCpy(_name.c_str(), MED_NAME_SIZE, maa, _too_long_str);
     MEDLoaderBase::safeStrCpy(_desc_name.c_str(), MED_COMMENT_SIZE, desc, _too_long_str);
+    MEDLoaderBase::safeStrCpy(_dt_unit.c_str(), MED_LNAME_SIZE, dtunit, _too_long_str);
     int spaceDim = (int)(coo ? coo->getNumberOfComponents() : 0);
     int mdim(0);
     if (!_ms.empty())
@@ -3685,7 +3687,7 @@ MEDFileUMesh::writeMeshLL(med_idt fid) const
          mdim,
          MED_UNSTRUCTURED_MESH,
          desc,
-         "",
+         dtunit,
          MED_SORT_DTIT,
          MEDFileMeshL2::TraduceAxisTypeRev(getAxisType()),
          comp,
-- 
2.43.0


From 87ce8de0786db76b51e5b5b6bbdfb662f5249b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:13 +0000
Subject: [PATCH 139/148] fix: setGroupsAtLevel does not reuse the name of
 another family

---
 src/MEDLoader/MEDFileMesh.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 0f466b1..9bc8f58 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -2472,8 +2472,12 @@ MEDFileMesh::appendFamilyEntries(
     {
         std::ostringstream oss;
         oss << "Family_" << (*it);
-        _families[oss.str()] = (*it);
-        famInv[*it] = oss.str();
+        std::string famName(oss.str());
+        std::map<std::string, mcIdType>::const_iterator itf(_families.find(famName));
+        if (itf != _families.end() && (*itf).second != *it)
+            famName = CreateNameNotIn(famName, getFamiliesNames());  // name already taken by another family
+        _families[famName] = (*it);
+        famInv[*it] = famName;
     }
     int i = 0;
     for (std::vector<std::vector<mcIdType>>::const_iterator it1 = fidsOfGrps.begin(); it1 != fidsOfGrps.end();
-- 
2.43.0


From 7a7bc7ce06f011e863b5df777c85745881cafcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:13 +0000
Subject: [PATCH 140/148] fix: zipFamilies does not list a family twice in a
 group

---
 src/MEDLoader/MEDFileMesh.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDLoader/MEDFileMesh.cxx b/src/MEDLoader/MEDFileMesh.cxx
index 9bc8f58..aba5a7c 100644
--- a/src/MEDLoader/MEDFileMesh.cxx
+++ b/src/MEDLoader/MEDFileMesh.cxx
@@ -1037,9 +1037,9 @@ MEDFileMesh::zipFamilies()
             std::for_each(
                 familiesOnCurGrp.begin(),
                 familiesOnCurGrp.end(),
-                [&familiesToKill, &newFamiliesForCurGrp](const std::string &elt)
+                [&familiesToKill, &newFamiliesForCurGrp, &newFamName](const std::string &elt)
                 {
-                    if (familiesToKill.find(elt) == familiesToKill.end())
+                    if (elt != newFamName && familiesToKill.find(elt) == familiesToKill.end())
                     {
                         newFamiliesForCurGrp.push_back(elt);
                     }
-- 
2.43.0


From 6706207ca0d54a062f273d486dc653f4f7473002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 141/148] fix: localizations and profiles of the first step of
 a MEDFileFieldMultiTS are named after the field

---
 src/MEDLoader/MEDFileFieldMultiTS.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MEDLoader/MEDFileFieldMultiTS.cxx b/src/MEDLoader/MEDFileFieldMultiTS.cxx
index e4c2bd0..a0298ff 100644
--- a/src/MEDLoader/MEDFileFieldMultiTS.cxx
+++ b/src/MEDLoader/MEDFileFieldMultiTS.cxx
@@ -1372,6 +1372,8 @@ MEDFileAnyTypeFieldMultiTSWithoutSDA::appendFieldNoProfileSBT(
         );
     if (!_time_steps.empty())
         checkCoherencyOfTinyInfo(field, arr);
+    else
+        setName(field->getName());  // used to name the localizations and the profiles
     MCAuto<MEDFileAnyTypeField1TSWithoutSDA> obj(createNew1TSWithoutSDAEmptyInstance());
     {
         MCAuto<MEDCouplingFieldTemplate> ft(MEDCouplingFieldTemplate::New(*field));
@@ -1398,6 +1400,8 @@ MEDFileAnyTypeFieldMultiTSWithoutSDA::appendFieldProfile(
         );
     if (!_time_steps.empty())
         checkCoherencyOfTinyInfo(field, arr);
+    else
+        setName(field->getName());  // used to name the localizations and the profiles
     MCAuto<MEDFileAnyTypeField1TSWithoutSDA> obj(createNew1TSWithoutSDAEmptyInstance());
     {
         MCAuto<MEDCouplingFieldTemplate> ft(MEDCouplingFieldTemplate::NewWithoutCheck(*field));
-- 
2.43.0


From a3984cb967ad06694a0b166c97446eb6fdcf30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 142/148] fix: MEDFileFieldMultiTS keeps the time unit of the
 fields

---
 src/MEDLoader/MEDFileFieldMultiTS.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDLoader/MEDFileFieldMultiTS.cxx b/src/MEDLoader/MEDFileFieldMultiTS.cxx
index a0298ff..0c330ef 100644
--- a/src/MEDLoader/MEDFileFieldMultiTS.cxx
+++ b/src/MEDLoader/MEDFileFieldMultiTS.cxx
@@ -1287,6 +1287,7 @@ MEDFileAnyTypeFieldMultiTSWithoutSDA::copyTinyInfoFrom(const MEDCouplingFieldDou
 {
     setName(field->getName());
     setQuantityKind(field->getQuantityKind());
+    setDtUnit(field->getTimeUnit());
     if (field->getMesh())
         setMeshName(field->getMesh()->getName());
     if (_name.empty())
-- 
2.43.0


From cdea6681aa2c2c5f5feda1763f85c8c8dc2d7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 143/148] fix: too long names of localizations are refused

---
 src/MEDLoader/MEDFileFieldInternal.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MEDLoader/MEDFileFieldInternal.cxx b/src/MEDLoader/MEDFileFieldInternal.cxx
index a386430..0697341 100644
--- a/src/MEDLoader/MEDFileFieldInternal.cxx
+++ b/src/MEDLoader/MEDFileFieldInternal.cxx
@@ -338,6 +338,13 @@ MEDFileFieldLoc::isEqual(const MEDFileFieldLoc &other, double eps) const
 void
 MEDFileFieldLoc::writeLL(med_idt fid) const
 {
+    if (_name.size() > MED_NAME_SIZE)
+    {
+        std::ostringstream oss;
+        oss << "MEDFileFieldLoc::writeLL : name of localization \"" << _name << "\" is too long for MED File ( > "
+            << MED_NAME_SIZE << ") !";
+        throw INTERP_KERNEL::Exception(oss.str());
+    }
     MEDFILESAFECALLERWR0(
         MEDlocalizationWr,
         (fid,
-- 
2.43.0


From 3b17cef9852cc9777fada000d63e3606bcae3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:00 +0000
Subject: [PATCH 144/148] fix: getTypeOfCell and getNodeIdsOfCell refuse
 invalid cell ids

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index e08c7a0..20f3275 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -3923,7 +3923,7 @@ INTERP_KERNEL::NormalizedCellType
 MEDCouplingUMesh::getTypeOfCell(mcIdType cellId) const
 {
     const mcIdType *ptI(_nodal_connec_index->begin()), *pt(_nodal_connec->begin());
-    if (cellId < _nodal_connec_index->getNbOfElems() - 1)
+    if (cellId >= 0 && cellId < _nodal_connec_index->getNbOfElems() - 1)
         return (INTERP_KERNEL::NormalizedCellType)pt[ptI[cellId]];
     else
     {
@@ -3993,6 +3993,13 @@ MEDCouplingUMesh::getNumberOfCellsWithType(INTERP_KERNEL::NormalizedCellType typ
 void
 MEDCouplingUMesh::getNodeIdsOfCell(mcIdType cellId, std::vector<mcIdType> &conn) const
 {
+    if (cellId < 0 || cellId >= _nodal_connec_index->getNbOfElems() - 1)
+    {
+        std::ostringstream oss;
+        oss << "MEDCouplingUMesh::getNodeIdsOfCell : Requesting nodes of cell #" << cellId << " but it should be in [0,"
+            << _nodal_connec_index->getNbOfElems() - 1 << ") !";
+        throw INTERP_KERNEL::Exception(oss.str());
+    }
     const mcIdType *ptI(_nodal_connec_index->begin()), *pt(_nodal_connec->begin());
     for (const mcIdType *w = pt + ptI[cellId] + 1; w != pt + ptI[cellId + 1]; w++)
         if (*w >= 0)
-- 
2.43.0


From e956ab117cd61b269e7b1fcd4d1be370f6fe547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:00 +0000
Subject: [PATCH 145/148] fix: ids of packs of SkyLineArray are checked against
 the number of packs

---
 src/MEDCoupling/MEDCouplingSkyLineArray.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
index f110434..e36fcab 100644
--- a/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
+++ b/src/MEDCoupling/MEDCouplingSkyLineArray.cxx
@@ -269,7 +269,7 @@ MEDCouplingSkyLineArray::checkSuperIndex(const std::string &func) const
 void
 MEDCouplingSkyLineArray::validSuperIndex(const std::string &func, mcIdType superIndex) const
 {
-    if (superIndex < 0 || superIndex >= _super_index->getNbOfElems())
+    if (superIndex < 0 || superIndex >= _super_index->getNbOfElems() - 1)
     {
         std::ostringstream oss;
         oss << "MEDCouplingSkyLineArray::" << func << ": invalid super index!";
@@ -280,7 +280,7 @@ MEDCouplingSkyLineArray::validSuperIndex(const std::string &func, mcIdType super
 void
 MEDCouplingSkyLineArray::validIndex(const std::string &func, mcIdType idx) const
 {
-    if (idx < 0 || idx >= _index->getNbOfElems())
+    if (idx < 0 || idx >= _index->getNbOfElems() - 1)
     {
         std::ostringstream oss;
         oss << "MEDCouplingSkyLineArray::" << func << ": invalid index!";
@@ -293,7 +293,7 @@ MEDCouplingSkyLineArray::validSuperIndexAndIndex(const std::string &func, mcIdTy
 {
     validSuperIndex(func, superIndex);
     mcIdType idx = _super_index->begin()[superIndex] + index;
-    if (idx < 0 || idx >= _index->getNbOfElems())
+    if (idx < 0 || idx >= _index->getNbOfElems() - 1)
     {
         std::ostringstream oss;
         oss << "MEDCouplingSkyLineArray::" << func << ": invalid index!";
@@ -544,7 +544,7 @@ MEDCouplingSkyLineArray::AggregatePacks(const std::vector<const MEDCouplingSkyLi
 void
 MEDCouplingSkyLineArray::getSimplePackSafe(const mcIdType absolutePackId, std::vector<mcIdType> &pack) const
 {
-    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems())
+    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems() - 1)
         throw INTERP_KERNEL::Exception("MEDCouplingSkyLineArray::getPackSafe: invalid index!");
     const mcIdType *iP(_index->begin()), *vP(_values->begin());
     mcIdType sz = iP[absolutePackId + 1] - iP[absolutePackId];
@@ -558,7 +558,7 @@ MEDCouplingSkyLineArray::getSimplePackSafe(const mcIdType absolutePackId, std::v
 const mcIdType *
 MEDCouplingSkyLineArray::getSimplePackSafePtr(const mcIdType absolutePackId, mcIdType &packSize) const
 {
-    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems())
+    if (absolutePackId < 0 || absolutePackId >= _index->getNbOfElems() - 1)
         throw INTERP_KERNEL::Exception("MEDCouplingSkyLineArray::getPackSafe: invalid index!");
     const mcIdType *iP(_index->begin()), *vP(_values->begin());
     packSize = iP[absolutePackId + 1] - iP[absolutePackId];
-- 
2.43.0


From 145dc132434769fcc884b396fe3edf38c6c87a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:01 +0000
Subject: [PATCH 146/148] fix: getIJSafe refuses negative tuple ids

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 278dad9..a974783 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -873,10 +873,10 @@ T
 DataArrayTemplate<T>::getIJSafe(std::size_t tupleId, std::size_t compoId) const
 {
     checkAllocated();
-    if (ToIdType(tupleId) >= getNumberOfTuples())
+    if (ToIdType(tupleId) < 0 || ToIdType(tupleId) >= getNumberOfTuples())
     {
         std::ostringstream oss;
-        oss << Traits<T>::ArrayTypeName << "::getIJSafe : request for tupleId " << tupleId << " should be in [0,"
+        oss << Traits<T>::ArrayTypeName << "::getIJSafe : request for tupleId " << ToIdType(tupleId) << " should be in [0,"
             << getNumberOfTuples() << ") !";
         throw INTERP_KERNEL::Exception(oss.str().c_str());
     }
-- 
2.43.0


From e50467bdb52ec0ff6c5f956af31c4488ba65ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:01 +0000
Subject: [PATCH 147/148] fix: getGaussLocalizationIdOfOneCell refuses invalid
 cell ids

---
 src/MEDCoupling/MEDCouplingFieldDiscretization.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
index 5b29403..90c24f9 100644
--- a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
@@ -2835,6 +2835,8 @@ MEDCouplingFieldDiscretizationGauss::getGaussLocalizationIdOfOneCell(mcIdType ce
 {
     if (!_discr_per_cell)
         throw INTERP_KERNEL::Exception("No Gauss localization still set !");
+    if (cellId < 0 || cellId >= _discr_per_cell->getNumberOfTuples())
+        throw INTERP_KERNEL::Exception("getGaussLocalizationIdOfOneCell : the specified cell id is out of range !");
     mcIdType locId = _discr_per_cell->begin()[cellId];
     if (locId < 0)
         throw INTERP_KERNEL::Exception("No Gauss localization set for the specified cell !");
-- 
2.43.0


From 98396eb56bd22c1062c07c1d29c1925186bef692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:01 +0000
Subject: [PATCH 148/148] fix: node ids of the sub nodes of a cell of less than
 8 nodes are not read out of bounds

---
 src/INTERP_KERNEL/SplitterTetra.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/SplitterTetra.hxx b/src/INTERP_KERNEL/SplitterTetra.hxx
index 960acba..23dad99 100644
--- a/src/INTERP_KERNEL/SplitterTetra.hxx
+++ b/src/INTERP_KERNEL/SplitterTetra.hxx
@@ -663,7 +663,7 @@ SplitterTetra2<MyMeshTypeT, MyMeshTypeS>::getCoordsOfSubNode2(
 )
 {
     const double *ret = _nodes.at(node);
-    if (node < 8)
+    if (node < static_cast<typename MyMeshTypeT::MyConnType>(_node_ids.size()))
         nodeId = _node_ids[node];
     else
         nodeId = -1;
-- 
2.43.0

