From bdeb69b89dbbdad72fbab04f814046a9c3354d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 001/162] fix: StaticSimpleDiscreteSpace: compile
 numberOfLabels, count variables in assignDense and addVariable

---
 .../graphicalmodel/space/static_simplediscretespace.hxx      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 793d08a..331088f 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -53,7 +53,6 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
    Iterator end
 ) {
    numberOfVariables_=std::distance(begin, end);
-   numberOfVariables_=static_cast<L>(*begin);
    while(begin!=end) {
       if(LABELS!=static_cast<size_t>(*begin)) {
          throw opengm::RuntimeError("*begin==LABELS_ is violated \
@@ -80,6 +79,8 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::addVariable(
       throw opengm::RuntimeError("numberOfLabels==LABELS is violated \
       in StaticSimpleDiscreteSpace::addVariable ");
    }
+   ++numberOfVariables_;
+   return numberOfVariables_ - 1;
 }
 
 template<size_t LABELS,class I, class L>
@@ -93,7 +94,7 @@ inline typename StaticSimpleDiscreteSpace<LABELS,I, L>::LabelType
 StaticSimpleDiscreteSpace<LABELS,I, L>::numberOfLabels(
    const IndexType dimension
 ) const {
-   return static_cast<L> LABELS;
+   return static_cast<L>(LABELS);
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From 994268fae1c287b776d6791c58fbc9d2e2f571ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 002/162] fix: FactorGraph::factorAdjacencyList: walk the
 factors of the factor's variables, not of variable 0, 1, ...

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5ffdac3..5160054 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -927,8 +927,9 @@ FactorGraph<S,I>::templatedFactorAdjacencyList
    out.resize(numberOfFactors());
    for(size_t f=0; f<numberOfFactors(); ++f) {
       for(size_t v=0 ;v<numberOfVariables(f); ++v) {
-         for(size_t ff=0;ff<numberOfFactors(v);++ff) {
-            const size_t fOfVar=factorOfVariable(v,ff);
+         const size_t variable = variableOfFactor(f, v);
+         for(size_t ff=0;ff<numberOfFactors(variable);++ff) {
+            const size_t fOfVar=factorOfVariable(variable,ff);
             if(f!=fOfVar) {
                out[f].insert(fOfVar);
             }
-- 
2.43.0


From c2051e71d406e0d9ac51be8286db5e727fc67b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 003/162] fix: FactorGraph::isConnected: skip factors of order
 0

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5160054..1f484f2 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -403,7 +403,9 @@ FactorGraph<S,I>::isConnected(marray::Vector<size_t>& representatives) const
       // iterate over all connected variables of factor and merge them to one partition
       const ConstVariableIterator variablesBegin = variablesOfFactorBegin(i);
       const ConstVariableIterator variablesEnd = variablesOfFactorEnd(i);
-      OPENGM_ASSERT(variablesBegin != variablesEnd);
+      if(variablesBegin == variablesEnd) {
+         continue; // a factor of order 0 connects nothing
+      }
 
       for(ConstVariableIterator iter = variablesBegin + 1; iter != variablesEnd; iter++) {
          connectedComponents.merge(*(iter - 1), *iter);
-- 
2.43.0


From 6b376577feb10f8707a9b24ac53d4187b85025f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 004/162] fix: FactorGraph::isGrid: compare with the path to
 the current diagonal corner, verify the arrangement found

---
 .../graphicalmodel/graphviews/factorgraph.hxx | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 1f484f2..fa82600 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -606,7 +606,7 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
    // find diagonal corner
    size_t diagonalCorner = 1;
    for(size_t i = 1; i < 4; i++) {
-      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner].size()) {
+      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner - 1].size()) {
          diagonalCorner = i;
       }
    }
@@ -691,10 +691,9 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       for(size_t j = 1; j < dimension[1] - 1; j++) {
          std::vector<size_t> oneHopVariables;
          if(twoHopConnected(gridIDs(i - 1, j), gridIDs(i, j - 1), oneHopVariables)) {
-            if(oneHopVariables.size() < 2) {
+            if(oneHopVariables.size() != 2) {
                return false;
             }
-            OPENGM_ASSERT(oneHopVariables.size() == 2);
             if(oneHopVariables[0] != gridIDs(i - 1, j - 1)) {
                gridIDs(i, j) = oneHopVariables[0];
             } else {
@@ -706,7 +705,33 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       }
    }
 
-   return true;
+   // check that the arrangement contains every variable exactly once and that
+   // the second order factors are exactly the edges of the grid
+   if(dimension[0] * dimension[1] != numberOfVariables()) {
+      return false;
+   }
+   std::vector<bool> visited(numberOfVariables(), false);
+   for(size_t i = 0; i < dimension[0]; i++) {
+      for(size_t j = 0; j < dimension[1]; j++) {
+         if(visited[gridIDs(i, j)]) {
+            return false;
+         }
+         visited[gridIDs(i, j)] = true;
+         if(i > 0 && !variableVariableConnection(gridIDs(i - 1, j), gridIDs(i, j))) {
+            return false;
+         }
+         if(j > 0 && !variableVariableConnection(gridIDs(i, j - 1), gridIDs(i, j))) {
+            return false;
+         }
+      }
+   }
+   size_t countSecondOrderFactors = 0;
+   for(size_t i = 0; i < numberOfFactors(); i++) {
+      if(numberOfVariables(i) == 2) {
+         countSecondOrderFactors++;
+      }
+   }
+   return countSecondOrderFactors == dimension[0] * (dimension[1] - 1) + (dimension[0] - 1) * dimension[1];
 }
 
 /// \brief return maximum factor order
-- 
2.43.0


From 97bc76826b0f4d1dd6e69418c27fbb40686f7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 005/162] fix: SimpleDiscreteSpace, StaticSimpleDiscreteSpace:
 assignDense leaves the space unchanged when it refuses

---
 .../graphicalmodel/space/simplediscretespace.hxx      | 11 ++++++-----
 .../space/static_simplediscretespace.hxx              |  7 +++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/simplediscretespace.hxx b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
index 48a8179..5632f42 100644
--- a/include/opengm/graphicalmodel/space/simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
@@ -57,13 +57,14 @@ SimpleDiscreteSpace<I, L>::assignDense
    Iterator begin,
    Iterator end
 ) {
-   numberOfVariables_ = std::distance(begin, end);
-   numberOfLabels_ = static_cast<L>(*begin);
-   while(begin != end) {
-      if(numberOfLabels_ != static_cast<LabelType>(*begin)) {
+   for(Iterator it = begin; it != end; ++it) {
+      if(static_cast<LabelType>(*begin) != static_cast<LabelType>(*it)) {
          throw opengm::RuntimeError("*begin == SimpleDiscreteSpace.numberOfLabels_ is violated in SimpleDiscreteSpace::assignDense");
       }
-      ++begin;
+   }
+   numberOfVariables_ = std::distance(begin, end);
+   if(begin != end) {
+      numberOfLabels_ = static_cast<LabelType>(*begin);
    }
 }
 
diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 331088f..5807212 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -52,14 +52,13 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
    Iterator begin,
    Iterator end
 ) {
-   numberOfVariables_=std::distance(begin, end);
-   while(begin!=end) {
-      if(LABELS!=static_cast<size_t>(*begin)) {
+   for(Iterator it=begin; it!=end; ++it) {
+      if(LABELS!=static_cast<size_t>(*it)) {
          throw opengm::RuntimeError("*begin==LABELS_ is violated \
          in StaticSimpleDiscreteSpace::assignDense ");
       }
-      ++begin;
    }
+   numberOfVariables_=std::distance(begin, end);
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From 49d86ddbca391e020c4ac5cff83d6194d5915595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 006/162] fix: SpaceBase::isSimpleSpace: compare label counts
 as labels, accept the empty space

---
 include/opengm/graphicalmodel/space/space_base.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/space_base.hxx b/include/opengm/graphicalmodel/space/space_base.hxx
index 1c67f59..203c9da 100644
--- a/include/opengm/graphicalmodel/space/space_base.hxx
+++ b/include/opengm/graphicalmodel/space/space_base.hxx
@@ -28,7 +28,10 @@ template<class SPACE, class I, class L>
 inline bool
 SpaceBase<SPACE, I, L>::isSimpleSpace() const {
    const IndexType numVar = static_cast<SPACE const*>(this)->numberOfVariables();
-   const IndexType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
+   if(numVar == 0) {
+      return true;
+   }
+   const LabelType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
    for(size_t i=1;i<numVar;++i) {
       if(l!=static_cast<SPACE const *>(this)->numberOfLabels(i)) {
          return false;
-- 
2.43.0


From d8576112fed5cca16f7ca35697d345d6b6a4da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 007/162] fix: ViewSpace: return type of numberOfLabels,
 addVariable throws

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 1aa2da0..4a50eff 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -63,7 +63,7 @@ ViewSpace<GM>::addVariable(
    const LabelType numberOfLabels
 )
 {
-   opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
+   throw opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
 }
 
 template<class GM>
@@ -75,7 +75,7 @@ ViewSpace<GM>::numberOfVariables() const
 }
 
 template<class GM>
-inline typename ViewSpace<GM>::IndexType
+inline typename ViewSpace<GM>::LabelType
 ViewSpace<GM>::numberOfLabels
 (
    const IndexType dimension
-- 
2.43.0


From 7eed047dd666d66409ce8c8dc200ca1c35f1a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 008/162] fix: GraphicalModelManipulator: building a modified
 model without an explicit lock() reads past tentacleFactor_

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 95b0b7c..fce115c 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -299,7 +299,7 @@ namespace opengm {
    void
    GraphicalModelManipulator<GM>::buildModifiedModel()
    {
-      locked_ = true;
+      lock();
       validModel_ = true;
       IndexType numberOfVariables = 0;
       std::vector<IndexType> varMap(gm_.numberOfVariables(),0);
@@ -385,7 +385,7 @@ namespace opengm {
    void
    GraphicalModelManipulator<GM>::buildModifiedSubModels()
    {
-      locked_ = true; 
+      lock();
       validSubModels_ = true;
       
       //Find Connected Components
-- 
2.43.0


From 92246e5fdd3f9fe549a31b83d06738df1d8c3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 009/162] fix: GraphicalModelManipulator: pushed2Leafs is
 indexed by variables

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index fce115c..5a81c4b 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -527,7 +527,7 @@ namespace opengm {
       }
       
       //SETUP LEAFS 
-      std::vector<bool>  pushed2Leafs(gm_.numberOfFactors(), false);
+      std::vector<bool>  pushed2Leafs(gm_.numberOfVariables(), false);
       for(IndexType var=0; var<gm_.numberOfVariables(); ++var){
          if(variableDegree[var] <= 1 && !fixVariable_[var]){
             leafs.push_back(var);
-- 
2.43.0


From b0e1dd7a56960e267ad27f2681d6252b4d7dbcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 010/162] fix: GraphicalModelManipulator: unlock() forgets
 eliminated tentacles

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 5a81c4b..6f70ad9 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -186,6 +186,11 @@ namespace opengm {
       validSubModels_=false;
       validModel_=false;
       submodels_.clear();
+      tentacleRoots_.clear();
+      tentacleFunctions_.clear();
+      tentacleLabelCandidates_.clear();
+      tentacleVars_.clear();
+      tentacleFactor_.clear();
       freeAllVariables();
    }
 
-- 
2.43.0


From 5b64c6d2da607820e7a50d763bfef1081fdac54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:11 +0000
Subject: [PATCH 011/162] fix: FunctionIdentification: order by type, then
 index (was no strict weak order, mixed up functions as map key)

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 4bd5cd6..5350f3d 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -881,8 +881,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType < rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex < rhs.functionIndex;
 }
@@ -894,8 +894,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex > rhs.functionIndex;
 }
@@ -907,8 +907,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType <= rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex <= rhs.functionIndex;
 }
@@ -920,8 +920,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >=rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex >= rhs.functionIndex;
 }
-- 
2.43.0


From 9e1be543bc16141c3dd482b50d35709999799785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 012/162] fix: CanonicalView: a missing unary is the neutral
 element of the operation, not zero

---
 include/opengm/utilities/canonical_view.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/canonical_view.hxx b/include/opengm/utilities/canonical_view.hxx
index cd3a342..d0f6f74 100644
--- a/include/opengm/utilities/canonical_view.hxx
+++ b/include/opengm/utilities/canonical_view.hxx
@@ -219,7 +219,7 @@ namespace canonical_view_internal {
 ///
 ///   - all variables are associated with exactly one unary factor (multiple
 ///     unary factors get squashed into one, a non-existent unary factor is
-///     mapped to a zero-constant factor)
+///     mapped to a constant factor with the neutral value of the operation)
 ///
 ///   - there is at most one factor for a given set of variables (multiple
 ///     factors attached to the clique are squashed into one factor)
@@ -279,7 +279,7 @@ public:
 			switch (unaryFactors[i].size()) {
 			case 0: { // Create new “empty” factor.
 				LabelType shape[1] = { gm.numberOfLabels(i) };
-				ConstFuncType func(shape, shape+1, 0);
+				ConstFuncType func(shape, shape+1, GM::OperatorType::template neutral<ValueType>());
 				fid = this->addFunction(func);
 				break;
 			}
-- 
2.43.0


From e1eb2114a2c598409ff549626cb4896be48fa5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 013/162] fix: FoEFunction::setDefault: store the experts row
 by row as operator() reads them

---
 include/opengm/functions/fieldofexperts.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/fieldofexperts.hxx b/include/opengm/functions/fieldofexperts.hxx
index 6c18af4..6a11642 100644
--- a/include/opengm/functions/fieldofexperts.hxx
+++ b/include/opengm/functions/fieldofexperts.hxx
@@ -101,7 +101,7 @@ public:
          alphas_[e] =  a_alpha[e]; 
          OPENGM_ASSERT(   alphas_[e] ==  a_alpha[e]);
          for(size_t i=0; i<4;++i){
-            experts_[e+i*3] = a_expert[e][i];
+            experts_[e*4+i] = a_expert[e][i];
          }
       }
       numLabels_= 256;
-- 
2.43.0


From c7e9b2d16ca73b7ecd54a9ffbeca264b605d0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:34 +0000
Subject: [PATCH 014/162] fix: SparseFunction: compute strides in size_t, not
 in the label type

---
 include/opengm/datastructures/sparsemarray/sparsemarray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
index b0cd979..ee48b4a 100755
--- a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
+++ b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
@@ -44,11 +44,11 @@ public:
         shape_.resize(dimension_);
         strides_.resize(dimension_);
         // compute strides
-        LabelType strideVal=1;
+        size_t strideVal=1;
         for(unsigned short  dim=0;dim<dimension_;++dim){
             shape_[dim]=*shapeBegin;
             strides_[dim]=strideVal;
-            strideVal*=shape_[dim];
+            strideVal*=static_cast<size_t>(shape_[dim]);
             ++shapeBegin;
         }
     }
-- 
2.43.0


From cc6f2801ba161b0a99d7363137719f821b9d9678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 015/162] fix: DynamicSingleSiteFunction: no delete[] of an
 uninitialised or already freed buffer

---
 include/opengm/functions/singlesitefunction.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 2d02123..deede5f 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -2,6 +2,7 @@
 #ifndef OPENGM_SINGLESITEFUNCTION_HXX
 #define OPENGM_SINGLESITEFUNCTION_HXX
 
+#include <cstddef>
 #include <vector>
 #include <algorithm>
 
@@ -141,7 +142,7 @@ public:
    typedef T value_type;
 
    DynamicSingleSiteFunction(const size_t size = 0)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0){
             dataPointer_ = new T[size];
@@ -149,7 +150,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const size_t size, ValueType value)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0) {
             dataPointer_ = new T[size];
@@ -165,6 +166,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const DynamicSingleSiteFunction & other)
+      :  dataPointer_(NULL), size_(0)
       {
          if(other.size_ != 0) {
             dataPointer_ = new T[other.size_];
@@ -181,12 +183,14 @@ public:
          if(this != &other) {
             if(other.size_ > size_) {
                delete[] dataPointer_;
+               dataPointer_ = NULL;
                dataPointer_ = new T[other.size_];
                size_ = other.size_;
                std::copy(other.dataPointer_, other.dataPointer_ + size_, dataPointer_);
             }
             else if(other.size_ < size_) {
                delete[] dataPointer_;
+               dataPointer_ = NULL;
                if(other.size_!= 0) {
                   dataPointer_= new T[other.size_];
                   size_ = other.size_;
@@ -207,6 +211,7 @@ public:
       {
          if(size_ != size){
             delete[] dataPointer_;
+            dataPointer_ = NULL;
             if(size != 0){
                dataPointer_ = new T[size];
                size_=size;
@@ -221,6 +226,7 @@ public:
       {
          if(size_ != size){
             delete[] dataPointer_;
+            dataPointer_ = NULL;
             if(size != 0) {
                dataPointer_ = new T[size];
                size_ = size;
-- 
2.43.0


From fe4d8579a2cbb4372ce3f850b05c001cb22dee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 016/162] fix: DynamicSingleSiteFunction: serialize writes the
 size that deserialize reads

---
 include/opengm/functions/singlesitefunction.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index deede5f..17e7be5 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -346,6 +346,7 @@ public:
 
    template<class INDEX_OUTPUT_ITERATOR, class VALUE_OUTPUT_ITERATOR >
       static void serialize(const  DynamicSingleSiteFunction<T>  & f, INDEX_OUTPUT_ITERATOR ii, VALUE_OUTPUT_ITERATOR vi){
+      *ii=f.size();
       for(size_t i=0;i<f.size();++i){
          size_t c[]={i};
          *vi=f(c);
-- 
2.43.0


From 08d9b3f398d6b8d469cd4163eebc230abe1163dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 017/162] fix: AStar: at most one tree factor per pair of
 variables (parallel factors made the heuristic loop for ever)

---
 include/opengm/inference/astar.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d1a19e6..10cf45a 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -235,10 +235,12 @@ namespace opengm {
       }
       //Check FactorIds
       if(parameter_.treeFactorIds_.size()==0) {
-         //Select tree factors
+         //Select tree factors (at most one per pair of variables)
+         std::set<std::pair<IndexType,IndexType> > treeEdges;
          for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
             if((gm_[i].numberOfVariables()==2) &&
-               (gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() || gm_[i].variableIndex(1)==parameter_.nodeOrder_.back())
+               (gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() || gm_[i].variableIndex(1)==parameter_.nodeOrder_.back()) &&
+               treeEdges.insert(std::make_pair(gm_[i].variableIndex(0),gm_[i].variableIndex(1))).second
                )
                parameter_.addTreeFactorId(i);
          }
-- 
2.43.0


From 93fb1f40f705946f6cd8263dbf70014f37ece0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 018/162] fix: AStar: standard heuristic for factors whose
 first variable is already fixed

---
 include/opengm/inference/astar.hxx | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 10cf45a..4e13eaf 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -456,13 +456,34 @@ namespace opengm {
                   const ViewFixVariablesFunction<GM> func(gm_[f], fixedVars);
                   mgm.addFactor(mgm.addFunction(func),MVars.begin(), MVars.end());
                }else{
-                  std::vector<IndexType> variablesIndices(optimizedFactor_[f].numberOfVariables());
+                  // optimize over all free variables but the first one
+                  IndependentFactorType optimized;
+                  if(fixedVars.size()==0) {
+                     optimized = optimizedFactor_[f];
+                  }else{
+                     std::vector<IndexType> fixedIndices;
+                     std::vector<LabelType> fixedLabels;
+                     std::vector<IndexType> freeIndices;
+                     for(IndexType i=0; i<gm_[f].numberOfVariables(); ++i){
+                        const IndexType var = gm_[f].variableIndex(i);
+                        if(fixVariable[var]){
+                           fixedIndices.push_back(var);
+                           fixedLabels.push_back(fixVariableLabel[var]);
+                        }else{
+                           freeIndices.push_back(var);
+                        }
+                     }
+                     optimized = gm_[f];
+                     optimized.fixVariables(fixedIndices.begin(), fixedIndices.end(), fixedLabels.begin());
+                     optimized.template accumulate<ACC>(freeIndices.begin()+1, freeIndices.end());
+                  }
+                  std::vector<IndexType> variablesIndices(optimized.numberOfVariables());
                   for(size_t i=0; i<variablesIndices.size(); ++i)
-                     variablesIndices[i] = varMap[optimizedFactor_[f].variableIndex(i)];
-                  LabelType numberOfLabels = optimizedFactor_[f].numberOfLabels(0);
+                     variablesIndices[i] = varMap[optimized.variableIndex(i)];
+                  LabelType numberOfLabels = optimized.numberOfLabels(0);
                   opengm::ExplicitFunction<ValueType,IndexType,LabelType> func(&numberOfLabels,&numberOfLabels+1,0);
                   for(LabelType i=0; i<numberOfLabels; ++i)
-                     func(i) = optimizedFactor_[f](i);
+                     func(i) = optimized(i);
                   mgm.addFactor(mgm.addFunction(func),variablesIndices.begin(),variablesIndices.end() );
                   OPENGM_ASSERT(mgm[mgm.numberOfFactors()-1].numberOfVariables()==1);
                }
-- 
2.43.0


From 2f915e11e37535175075d4d3ad7308043eff0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 019/162] fix: AStar: fast heuristic counts factors without
 variables

---
 include/opengm/inference/astar.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 4e13eaf..4a0ffef 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -563,6 +563,12 @@ namespace opengm {
       for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
          const FactorType & f    = gm_[i];
          size_t nvar = f.numberOfVariables();
+         //factors without variables contribute a constant
+         if(nvar==0) {
+            LabelType coordinates[]={0};
+            for(size_t j=0;j<numStates_[nextNode];++j)
+               OperatorType::op(f(coordinates), nodeEnergy[nextNode][j]);
+         }
          //factors depending from 1 variable can be include
          if(nvar==1) {
             int index = f.variableIndex(0);
-- 
2.43.0


From 25a371896b957ead864c15dcf622b17459b2e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 020/162] fix: AStar: the bound is that of the optimum, not of
 the last of the n best solutions

---
 include/opengm/inference/astar.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 4a0ffef..919d67d 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -321,13 +321,16 @@ namespace opengm {
          }
          while(array_.front().conf.size() < numNodes_ && exitFlag==0) {
             expand(visitor);
-            belowBound_ = array_.front().value;
+            // later solutions are no bound on the optimum
+            if(optConf_.size()==0)
+               belowBound_ = array_.front().value;
             exitFlag = visitor(*this); 
             //visitor(*this, array_.front().conf, array_.size(), array_.front().value, globalBound_, time);
          }
          if(array_.front().conf.size()>=numNodes_){
             ValueType  value = array_.front().value;
-            belowBound_ = value;
+            if(optConf_.size()==0)
+               belowBound_ = value;
             std::vector<LabelType> conf(numNodes_);
             for(size_t n=0; n<numNodes_; ++n) {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
-- 
2.43.0


From 84c9724998f3263d0c9a539ce8936f51c674f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 021/162] fix: AStar: respect the visitor's request to stop at
 a solution, no step after it

---
 include/opengm/inference/astar.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 919d67d..d40b447 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -336,7 +336,8 @@ namespace opengm {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
             } 
             optConf_.push_back(conf);
-            visitor(*this);
+            if(exitFlag==0)
+               exitFlag = visitor(*this);
             if(ACC::bop(parameter_.objectiveBound_, value)) {
                visitor.end(*this);
                return NORMAL;
-- 
2.43.0


From 6ba168da4716f3592170bbca15618c2653e7a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 022/162] fix: AStar: fall back to the standard heuristic for
 factors of order > 2

---
 include/opengm/inference/astar.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d40b447..a5c2aa8 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -203,6 +203,9 @@ namespace opengm {
          else
             parameter_.heuristic_ = Parameter::STANDARDHEURISTIC;
       }
+      // the fast heuristic is only available up to order 2, fall back to the naive one
+      if(parameter_.heuristic_ == Parameter::FASTHEURISTIC && gm_.factorOrder()>2)
+         parameter_.heuristic_ = Parameter::STANDARDHEURISTIC;
       OPENGM_ASSERT(parameter_.heuristic_ == Parameter::FASTHEURISTIC || parameter_.heuristic_ == Parameter::STANDARDHEURISTIC);
       ACC::ineutral(belowBound_);
       ACC::neutral(aboveBound_);
-- 
2.43.0


From 8799343848644dd4cbae03c50550b46e15f10801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 023/162] fix: AStar: every run of infer() starts a new search

---
 include/opengm/inference/astar.hxx | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index a5c2aa8..62ef049 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -262,12 +262,6 @@ namespace opengm {
          OPENGM_ASSERT(optimizedFactor_[i].numberOfVariables() == 1);
          OPENGM_ASSERT(optimizedFactor_[i].variableIndex(0) == index[0]);
       }
-      //PUSH EMPTY CONFIGURATION TO HEAP
-      AStarNode<IndependentFactorType> a;
-      a.conf.resize(0);
-      a.value = 0;
-      array_.push_back(a);
-      make_heap(array_.begin(), array_.end(), comp1);
       //Check if maximal order is smaller equal 2, otherwise fall back to naive computation of heuristic
       if(parameter_.heuristic_ == parameter_.FASTHEURISTIC) {
          for(size_t i=0; i<parameter_.treeFactorIds_.size(); ++i) {
@@ -316,6 +310,13 @@ namespace opengm {
    { 
       size_t exitFlag=0;
       optConf_.resize(0);
+      ACC::ineutral(belowBound_);
+      ACC::neutral(aboveBound_);
+      //PUSH EMPTY CONFIGURATION TO HEAP
+      AStarNode<IndependentFactorType> a;
+      a.conf.resize(0);
+      a.value = 0;
+      array_.assign(1, a);
       visitor.begin(*this);    
       while(array_.size()>0 && exitFlag==0) {
          if(parameter_.numberOfOpt_ == optConf_.size()) {
-- 
2.43.0


From 2234d2d83931314cd844f791c0c69b484fca9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 024/162] fix: IndependentFactor: assignment from a model
 factor compiles for all index and label types

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index b2fa38b..e515971 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -1232,7 +1232,7 @@ IndependentFactor<T, I, L>::operator=
    }
    else {
       size_t indexToScalar[]={0};
-      function_=ExplicitFunction<T>(src(indexToScalar));
+      function_=FunctionType(src(indexToScalar));
    }
   return * this;
 }
-- 
2.43.0


From f5481b0bac87c7eab638fd01462245321646e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 025/162] fix:
 GraphicalModelDecomposer::decomposeIntoSpanningTrees covers the variables of
 a model without factors

---
 .../decomposition/graphicalmodeldecomposer.hxx               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
index f864bba..f7bdbf1 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
@@ -138,7 +138,8 @@ decomposeIntoSpanningTrees
       whiteList.push_back(j);
    }
      
-   while(!whiteList.empty()) {
+   // at least one submodel, variables without factors have to be covered too
+   do {
       size_t subModelId  = decomposition.addSubModel();
       for(size_t variableId=0; variableId<gm.numberOfVariables();++variableId) {
          decomposition.addSubVariable(subModelId,variableId);
@@ -194,7 +195,7 @@ decomposeIntoSpanningTrees
       }
       blackList.insert(blackList.end(), grayList.begin(), grayList.end());
       grayList.clear();
-   }
+   } while(!whiteList.empty());
    return decomposition;
 } 
  
-- 
2.43.0


From c9b3d02ecf4a1dad0d775e347d3a09a754549ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 026/162] fix: DynamicProgramming: custom roots on forests
 (skipped variables, labeling not read from the roots)

---
 .../opengm/inference/dynamicprogramming.hxx   | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 436c36e..2672bb5 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -112,16 +112,12 @@ namespace opengm {
     nodeOrder_.resize(gm_.numberOfVariables(),std::numeric_limits<std::size_t>::max());
     size_t rootCounter=0;
     while(varCount < gm_.numberOfVariables() && orderCount < gm_.numberOfVariables()){
-      if(rootCounter<para_.roots_.size()){
-        nodeOrder_[para_.roots_[rootCounter]] = orderCount++;
-        nodeList.push_back(para_.roots_[rootCounter]);
-        ++rootCounter;
+      // the given roots first, then one variable of every tree that contains none of them
+      const size_t root = rootCounter<para_.roots_.size() ? para_.roots_[rootCounter++] : varCount++;
+      if(nodeOrder_[root]==std::numeric_limits<std::size_t>::max()){
+        nodeOrder_[root] = orderCount++;
+        nodeList.push_back(root);
       }
-      else if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
-        nodeOrder_[varCount] = orderCount++;
-        nodeList.push_back(varCount);
-      }
-      ++varCount;
       while(nodeList.size()>0){
         size_t node = nodeList.back();
         nodeList.pop_back();
@@ -273,8 +269,10 @@ namespace opengm {
        if(inferenceStarted_) {
          std::vector<size_t> nodeList;
          arg.assign(gm_.numberOfVariables(), std::numeric_limits<LabelType>::max() );
-         size_t var = 0;
-         while(var < gm_.numberOfVariables()){
+         size_t order = 0;
+         while(order < gm_.numberOfVariables()){
+           // roots precede the other variables of their trees
+           const size_t var = orderedNodes_[order];
            if(arg[var]==std::numeric_limits<LabelType>::max()){
              MyValueType v; ACC::neutral(v);
              for(size_t i=0; i<gm_.numberOfLabels(var); ++i){
@@ -285,7 +283,7 @@ namespace opengm {
              }
              nodeList.push_back(var);
            }
-           ++var;
+           ++order;
            while(nodeList.size()>0){
              size_t node = nodeList.back();
              size_t childrenCounter = 0;
-- 
2.43.0


From 55688deb254a208069c81df30e70efaa1788f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 027/162] fix: Logsumexp: not-in-place operation ignored its
 second operand; minus infinity is the neutral element

---
 include/opengm/operations/logsumexp.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index 87f4d70..329570b 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -37,9 +37,8 @@ struct Logsumexp
       static void op(const T1& in1, T2& out)
 //         { out = log(exp(out) + exp(in1)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      const T2 in = in1;
+      op(in, T2(out), out);
    }
 
    /// operation (not in-place)
@@ -47,9 +46,13 @@ struct Logsumexp
       static void op(const T1 in1, const T2 in2, T3& out)
 //         { out = log(exp(in1) + exp(in2)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      const T3 theMax = std::max(static_cast<T3>(in1), static_cast<T3>(in2));
+      const T3 theMin = std::min(static_cast<T3>(in1), static_cast<T3>(in2));
+      // the neutral element is minus infinity, infinity - infinity is undefined
+      if(theMin == neutral<T3>() || theMax == ineutral<T3>())
+         out = theMax;
+      else
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
    }
 
    /// inverse operation (in-place)
-- 
2.43.0


From f820fecf8e0ad29a19e7979d9a6efe7698a884bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:49 +0000
Subject: [PATCH 028/162] fix: Movemaker::moveOptimallyWithAllLabelsChanging:
 restore the buffer of the variables it touched

---
 include/opengm/inference/movemaker.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 468115c..5a8740e 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -497,7 +497,7 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
       if(gm_.space().numberOfLabels(variableIndices[j]) == 1) {
          // restore stateBuffer_
          for(size_t k=0; k<j; ++k) {
-            stateBuffer_[k] = state_[k];
+            stateBuffer_[variableIndices[k]] = state_[variableIndices[k]];
          }
          return energy_;
       }
-- 
2.43.0


From 59d15ec3e1ab20f0d29bb9977d8bdfdff9e50409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:49 +0000
Subject: [PATCH 029/162] fix: LazyFlipper: every run of infer() searches all
 subgraphs again

---
 include/opengm/inference/lazyflipper.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 53689ab..28d6322 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -763,6 +763,10 @@ LazyFlipper<GM, ACC>::infer(
    VisitorType& visitor
 )
 {
+   // start with an empty forest, also if infer() has been called before
+   subgraphForest_ = SubgraphForest();
+   deactivateAllVariables(0);
+   deactivateAllVariables(1);
    bool multiLabel;
    if(this->useMultilabelInference_ == true) {
       multiLabel = true;
-- 
2.43.0


From dce50cf90f67c02e9c75a096f9808bd58537fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:49 +0000
Subject: [PATCH 030/162] fix: ICM::Parameter: templated constructor compiles

---
 include/opengm/inference/icm.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 7b70ac9..c538e76 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -68,7 +68,7 @@ public:
        Parameter(const OP & otherParameter)
           {
              moveType_ = otherParameter.moveType_== 0? SINGLE_VARIABLE : FACTOR; 
-             startPoint_(otherParameter.startPoint_); 
+             startPoint_ = otherParameter.startPoint_; 
           }
 
         MoveType moveType_;
-- 
2.43.0


From 6518687f8ee80b658e380c499a4f796fa359ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 031/162] fix: ICM: a factor move makes the moves on the
 factors of its neighbours worth trying again

---
 include/opengm/inference/icm.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index c538e76..4087143 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -248,8 +248,15 @@ InferenceTermination ICM<GM,ACC>::infer
                   for(v=0;v<gm_[f].numberOfVariables();++v) {
                      const size_t varIndex=gm_[f].variableIndex(v);
                      if(stateBuffer[v]!=movemaker_.state(varIndex)) {
+                        // the value of a move on a factor depends on the neighbours of its variables
                         for(ff=0;ff<gm_.numberOfFactors(varIndex);++ff) {
-                           isLocalOptimal[gm_.factorOfVariable(varIndex,ff)]=false;
+                           const IndexType factorIndex=gm_.factorOfVariable(varIndex,ff);
+                           for(size_t vv=0;vv<gm_[factorIndex].numberOfVariables();++vv) {
+                              const IndexType neighbour=gm_[factorIndex].variableIndex(vv);
+                              for(size_t fff=0;fff<gm_.numberOfFactors(neighbour);++fff) {
+                                 isLocalOptimal[gm_.factorOfVariable(neighbour,fff)]=false;
+                              }
+                           }
                         }
                      }
                   }
-- 
2.43.0


From 0d799e77bc15a48594242cddb081c21bc3154c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 032/162] fix: AlphaExpansion::Parameter: templated constructor
 copies the starting labels

---
 include/opengm/inference/alphaexpansion.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d5b21e3..d93cc15 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -66,7 +66,7 @@ public:
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         InferenceParameter parameter_;
-- 
2.43.0


From ad0a2ac89d5041c66f3e839f0d230f19afd02fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 033/162] fix: AlphaExpansion: pairwise terms between different
 labels were left out of the expansion move

---
 include/opengm/inference/alphaexpansion.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d93cc15..d054eec 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -359,8 +359,8 @@ AlphaExpansion<GM, INF>::infer
                }
                else{
                   OPENGM_ASSERT(varX < numberOfVariables + numberOfAuxiliaryNodes);
-                  addPairwise(inf, var1, varX, 0, factor(vecAX), 0, 0);
-                  addPairwise(inf, var2, varX, 0, factor(vecXA), 0, 0);
+                  addPairwise(inf, var1, varX, 0, factor(vecXA), factor(vecXA), 0);
+                  addPairwise(inf, var2, varX, 0, factor(vecAX), factor(vecAX), 0);
                   addUnary(inf, varX, factor(vecAA), factor(vecXX));
                   ++varX;
                }
-- 
2.43.0


From 8d6bd114b37c3837c1bda55fb658db246e53b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 034/162] fix: AlphaExpansion::setInitialLabelLocalOptimal:
 unary factors are not indexed like variables (out-of-bounds write)

---
 include/opengm/inference/alphaexpansion.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d054eec..f6a5c57 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -464,16 +464,18 @@ AlphaExpansion<GM, INF>::setInitialLabel
 template<class GM, class INF>
 inline void
 AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
-   label_.resize(gm_.numberOfVariables(), 0);
+   label_.assign(gm_.numberOfVariables(), 0);
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
+         const IndexType var = gm_[i].variableIndex(0);
          std::vector<size_t> state(1, 0);
          ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
+         label_[var] = 0;
+         for(state[0]=1; state[0]<gm_.numberOfLabels(var); ++state[0]) {
             if(AccumulationType::bop(gm_[i](state.begin()), value)) {
                value = gm_[i](state.begin());
-               label_[i] = state[0];
+               label_[var] = state[0];
             }
          }
       }
-- 
2.43.0


From e38536d330c19ef8c618bc49ee07e634705d3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 035/162] fix: AlphaBetaSwap::Parameter: templated constructor
 initialised maxNumberOfIterations_ with itself

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9a21537..a927cb9 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -43,7 +43,7 @@ public:
         template<class P>
         Parameter(const P & p)
         :   parameter_(p.parameter_),
-            maxNumberOfIterations_(maxNumberOfIterations_){
+            maxNumberOfIterations_(p.maxNumberOfIterations_){
         }
 
         typename InferenceType::Parameter parameter_; 
-- 
2.43.0


From 550611a0dd0378aa22f54aa1235feb15bbdc0ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 036/162] fix: AlphaBetaSwap: an improving swap makes all pairs
 of labels worth trying again

---
 include/opengm/inference/alphabetaswap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index a927cb9..5a3327f 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -296,6 +296,7 @@ AlphaBetaSwap<GM, INF>::infer
       OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if (AccumulationType::bop(energy2, energy)) {
          energy = energy2;
+         countUnchanged = 0;
       } else {
          ++countUnchanged;
       }
-- 
2.43.0


From 6bfa84fcaaa407457d4f2806c397e1eb3344078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:08 +0000
Subject: [PATCH 037/162] fix: GraphCut: a second infer() doubled the terminal
 capacities

---
 include/opengm/inference/graphcut.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 314babd..5efdb4e 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -377,6 +377,9 @@ GraphCut<GM, ACC, MINSTCUT>::infer(VISITOR & visitor) {
    for(size_t i=0; i<sEdges_.size(); ++i) {
       minStCut_->addEdge(0, i+2, sEdges_[i]);
       minStCut_->addEdge(i+2, 1, tEdges_[i]);
+      // these capacities are in the network now, do not add them in a next run again
+      sEdges_[i] = 0;
+      tEdges_[i] = 0;
    }
    minStCut_->calculateCut(state_);
    inferenceDone_=true;
-- 
2.43.0


From e66c89e93f7b629b768224a6ac0e356dc68be5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 038/162] fix: GraphCut: third order factors (third variable,
 auxiliary nodes, sink edges)

---
 include/opengm/inference/graphcut.hxx | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 5efdb4e..00bb2e4 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -253,7 +253,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
    else if(numberOfVariables == 3) {
       const size_t var0 = factor.variableIndex(0);
       const size_t var1 = factor.variableIndex(1);
-      const size_t var2 = factor.variableIndex(1);
+      const size_t var2 = factor.variableIndex(2);
       OPENGM_ASSERT(var0 < numVariables_);
       OPENGM_ASSERT(var1 < numVariables_);
       OPENGM_ASSERT(var2 < numVariables_);
@@ -279,7 +279,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             if(G-E>=0) addEdgeCapacity(0, var1+2, G - E);
             else       addEdgeCapacity(var1+2, 1, E - G);
             if(D-C>=0) addEdgeCapacity(0, var2+2, D - C);
-            else       addEdgeCapacity(var2+2, 0, C - D);
+            else       addEdgeCapacity(var2+2, 1, C - D);
 
             addEdgeCapacity(var1+2, var2+2, B + C - A - D);
             addEdgeCapacity(var2+2, var0+2, B + E - A - F);
@@ -288,7 +288,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             addEdgeCapacity(var0 + 2, id + 2, P);
             addEdgeCapacity(var1 + 2, id + 2, P);
             addEdgeCapacity(var2 + 2, id + 2, P);
-            addEdgeCapacity(id, 1, P);
+            addEdgeCapacity(id + 2, 1, P);
          }
          else {
             if(C-G>=0) addEdgeCapacity(var0+2, 1, C - G);
@@ -309,7 +309,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
          };
       }
       else{
-         throw RuntimeError("This implementation of the graph cut optimizer support 3rd order factors only in connection with opengm::Maximizer.");
+         throw RuntimeError("This implementation of the graph cut optimizer supports 3rd order factors only in connection with opengm::Minimizer.");
       }
    }
    else {
@@ -348,18 +348,11 @@ GraphCut<GM, ACC, MINSTCUT>::tripleId
    std::vector<size_t>& triple
 ) {
    // search for triple in list
-   std::list<std::vector<size_t> >::iterator it;
-   size_t counter = numVariables_;
-   for(it = tripleList.begin(); it != tripleList.end(); it++) {
-      if(triple[0] == (*it)[0] && triple[1] == (*it)[1] && triple[2] == (*it)[2]) {
-         return counter;
-      }
-      numVariables_++;
-   }
-   // add triple to list
+   // every third order factor has an auxiliary node of its own
+   const size_t id = numVariables_ + tripleList.size();
    tripleList.push_back(triple);
-   OPENGM_ASSERT(counter - numVariables_ < numFacDim_[3]);
-   return counter;
+   OPENGM_ASSERT(id - numVariables_ < numFacDim_[3]);
+   return id;
 }
    
 template<class GM, class ACC, class MINSTCUT>
-- 
2.43.0


From d42dbae9a2f39e2e02909ad53fb04ed1fa76af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 039/162] fix: MinSTCutBoost: push-relabel ignores what the
 segmentation contained before

---
 include/opengm/inference/auxiliary/minstcutboost.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/minstcutboost.hxx b/include/opengm/inference/auxiliary/minstcutboost.hxx
index 3f6642a..14d28ac 100644
--- a/include/opengm/inference/auxiliary/minstcutboost.hxx
+++ b/include/opengm/inference/auxiliary/minstcutboost.hxx
@@ -134,7 +134,7 @@ namespace opengm {
             get(boost::vertex_index_t(), graph_)
             );
          // find (s,t)-cut set 
-         segmentation.resize(num_vertices(graph_), true);
+         segmentation.assign(num_vertices(graph_), true);
          segmentation[S] = false; // source
          segmentation[T] = false; // sink
          typedef typename boost::property_map<graph_type, boost::vertex_index_t>::type VertexIndexMap;
-- 
2.43.0


From 0d45d0a2a518e42cc750ea7760b9fa767585fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 040/162] fix: InfAndFlip: never worse than the starting point;
 arg() before infer() read an empty state

---
 include/opengm/inference/infandflip.hxx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/opengm/inference/infandflip.hxx b/include/opengm/inference/infandflip.hxx
index 09820c6..209ae6e 100644
--- a/include/opengm/inference/infandflip.hxx
+++ b/include/opengm/inference/infandflip.hxx
@@ -84,6 +84,8 @@ public:
       sp_.resize(gm_.numberOfVariables());
       sp_.assign(sp,sp+gm_.numberOfVariables());
       spValue_=gm_.evaluate(sp_.begin());
+      state_=sp_;
+      value_=spValue_;
    }
 private:
    const GraphicalModelType& gm_;
@@ -111,7 +113,8 @@ InfAndFlip<GM, ACC, INF>::InfAndFlip(
    if(gm_.numberOfVariables() == 0) {
       throw RuntimeError("The graphical model has no variables.");
    }
-   value_ = ACC::template neutral<ValueType>();
+   state_.resize(gm_.numberOfVariables(), 0);
+   value_ = gm_.evaluate(state_.begin());
    bound_ = ACC::template ineutral<ValueType>();
 }
 
@@ -155,6 +158,10 @@ InfAndFlip<GM, ACC, INF>::infer(
    value_ = gm_.evaluate(state_); 
    //value_=inf.value();
    bound_=inf.bound();
+   if(sp_.size()==gm_.numberOfVariables() && ACC::bop(spValue_,value_)){
+      state_=sp_;
+      value_=spValue_;
+   }
    if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
       visitor.end(*this);
       return NORMAL;
@@ -162,14 +169,7 @@ InfAndFlip<GM, ACC, INF>::infer(
 
    if(para_.maxSubgraphSize_>0){
       lf.setMaxSubgraphSize(para_.maxSubgraphSize_);
-      if(sp_.size()!=gm_.numberOfVariables())
-         lf.setStartingPoint(state_.begin());
-      else{
-         if(ACC::bop(value_,spValue_))
-            lf.setStartingPoint(state_.begin());
-         else
-            lf.setStartingPoint(sp_.begin());
-      }
+      lf.setStartingPoint(state_.begin());
       std::cout << "start flipping ..."<<std::endl;
       lf.infer();
       lf.arg(state_);
-- 
2.43.0


From 5d75cce448c95e0487ab52702927a093604163e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 041/162] fix: AlphaBetaSwap: accept improving swaps only (a
 tie changed the labeling but counted as unchanged)

---
 include/opengm/inference/alphabetaswap.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 5a3327f..c9de9c3 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -279,6 +279,7 @@ AlphaBetaSwap<GM, INF>::infer
       inf.infer();
       inf.arg(state);
       OPENGM_ASSERT(state.size() == counter);
+      const std::vector<LabelType> oldLabel(label_);
       for (size_t var = 0; var < numberOfVariables; ++var) {
          if (label_[var] == alpha_ || label_[var] == beta_) {
             if (state[variable2Node[var]] == 0)
@@ -290,16 +291,18 @@ AlphaBetaSwap<GM, INF>::infer
          }
       }
       ValueType energy2 = gm_.evaluate(label_);
-      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
-         exitInf=true;
-      }
       OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if (AccumulationType::bop(energy2, energy)) {
          energy = energy2;
          countUnchanged = 0;
       } else {
+         // keep the labeling for which the other pairs of labels have been tried
+         label_ = oldLabel;
          ++countUnchanged;
       }
+      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
+         exitInf=true;
+      }
    }
    visitor.end(*this);
    return NORMAL;
-- 
2.43.0


From b44f2d523b12f8c485e6f3c27e414209f34165d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 042/162] fix: AlphaExpansion: accept improving expansions only
 (a tie changed the labeling but counted as unchanged)

---
 include/opengm/inference/alphaexpansion.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index f6a5c57..b7b88c1 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -316,6 +316,7 @@ AlphaExpansion<GM, INF>::infer
             }
          }
       }
+      const std::vector<LabelType> oldLabel(label_);
       std::vector<size_t> numFacDim(4, 0);
       INF inf(numberOfVariables + numberOfAuxiliaryNodes, numFacDim, parameter_.parameter_);
       size_t varX = numberOfVariables;
@@ -379,18 +380,20 @@ AlphaExpansion<GM, INF>::infer
       }
       OPENGM_ASSERT(gm_.numberOfVariables() == label_.size());
       ValueType energy2 = gm_.evaluate(label_);
-      //visitor(*this,energy2,energy,alpha_);
-      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
-         exitInf=true;
-      }
       // OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if(AccumulationType::bop(energy2, energy)) {
          energy=energy2;
          countUnchanged = 0;
       }
       else{
+         // keep the labeling for which the other labels have been tried
+         label_=oldLabel;
          ++countUnchanged;
       }
+      //visitor(*this,energy2,energy,alpha_);
+      if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
+         exitInf=true;
+      }
       incrementAlpha();
       OPENGM_ASSERT(alpha_ < maxState_);
    }
-- 
2.43.0


From 139147669f1f0e24c55cae03d4558a101aa1398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 043/162] fix: BufferVector: reserve() changed the size, empty
 vectors kept an uninitialised pointer

---
 .../opengm/datastructures/buffer_vector.hxx   | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..b062cfb 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -73,7 +73,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
+      capacity_(size),
+      data_(NULL) {
       if(size_!=0) {
       data_ = new T[size];
       }
@@ -89,9 +90,12 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
-      std::fill(data_,data_+size_,value);
+      capacity_(size),
+      data_(NULL) {
+      if(size_!=0) {
+         data_ = new T[size];
+         std::fill(data_,data_+size_,value);
+      }
    }
    
    
@@ -103,7 +107,8 @@ namespace opengm{
       const  BufferVector<T> & other
    )
    :  size_(other.size_),
-      capacity_(other.size_)
+      capacity_(other.size_),
+      data_(NULL)
    {
       if(size_!=0) {
          data_ = new T[size_];
@@ -165,7 +170,7 @@ namespace opengm{
    template<class T>
    inline T const *
    BufferVector<T>::begin() const{
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_;
    }
    
@@ -173,7 +178,7 @@ namespace opengm{
    template<class T>
    inline T const *
    BufferVector<T>::end() const{
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_ + size_;
    }
    
@@ -181,7 +186,7 @@ namespace opengm{
    template<class T>
    inline T * const
    BufferVector<T>::begin() {
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_;
    }
    
@@ -189,7 +194,7 @@ namespace opengm{
    template<class T>
    inline T * const
    BufferVector<T>::end() {
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_ + size_;
    }
    
@@ -231,17 +236,21 @@ namespace opengm{
          if(size_!=0) {
             T * tmp=new T[capacity_*2];
             std::copy(data_,data_+size_,tmp);
+            tmp[size_]=value; // value may be an element of this vector
             delete[] data_;
             capacity_*=2;
             data_=tmp;
          }
          else{
             T * tmp=new T[2];
+            tmp[0]=value;
             capacity_=2;
             data_=tmp;
          }
       }
-      data_[size_]=value;
+      else{
+         data_[size_]=value;
+      }
       ++size_;
       OPENGM_ASSERT(size_<=capacity_);
    }
@@ -264,6 +273,7 @@ namespace opengm{
             data_=tmp;
          }
          else{
+            delete[] data_;
             data_=new T[size];
             capacity_=size;
          }
@@ -289,12 +299,11 @@ namespace opengm{
             data_=tmp;
          }
          else{
+            delete[] data_;
             data_=new T[size];
          }
-         size_=size;
          capacity_=size;
       }
-      //size_=size;
       OPENGM_ASSERT(size_<=capacity_);
    }
    
-- 
2.43.0


From 8d64472aed7ad7106e3d30c4608d58b6bc221bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 044/162] fix: FastSequence: copies and assignments mixed up
 stack and heap storage when the capacity exceeded the size

---
 .../opengm/datastructures/fast_sequence.hxx   | 29 ++++---------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..1103d62 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -117,7 +117,7 @@ FastSequence<T, MAX_STACK>::FastSequence
    const  FastSequence<T, MAX_STACK> & other
 )
 :  size_(other.size_),
-   capacity_(other.capacity_)
+   capacity_(other.size_>MAX_STACK?other.size_:MAX_STACK)
 {
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -148,27 +148,7 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
 )
 {
    if(&other != this) {
-      // size_=other.size_;
-      // capacity_=other.capacity_;
-      // OPENGM_ASSERT(size_<=capacity_);
-      // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
-         // delete old sequence
-         if(size_>MAX_STACK) {
-            delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
-         }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
-      }
-      else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
-      }
+      this->resize(other.size_);
       std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
    }
    return *this;
@@ -250,13 +230,16 @@ FastSequence<T, MAX_STACK>::push_back
    if(capacity_ == size_) {
       T * tmp=new T[capacity_ * 2];
       std::copy(pointerToSequence_, pointerToSequence_ + size_, tmp);
+      tmp[size_]=value; // value may be an element of this sequence
       if(capacity_ > MAX_STACK) {
          delete[] pointerToSequence_;
       }
       capacity_ *= 2;
       pointerToSequence_ = tmp;
    }
-   pointerToSequence_[size_]=value;
+   else {
+      pointerToSequence_[size_]=value;
+   }
    ++size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
-- 
2.43.0


From 571b017b43500c3c558eb1c884e98d03440c4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 045/162] fix: RandomAccessSet: insert with a position hint
 compiles, swap exchanges the comparisons

---
 include/opengm/datastructures/randomaccessset.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7fd5b4f..7f1556d 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -363,8 +363,10 @@ RandomAccessSet<Key,Compare,Alloc>::insert
    const typename RandomAccessSet<Key,Compare,Alloc>::value_type& value
 )
 {
-   if((position == begin() || this->operator()(*(position-1),value))
-   && (position == end() || this->operator()(value, *position))) {
+   const const_iterator first = vector_.begin();
+   const const_iterator last = vector_.end();
+   if((position == first || compare_(*(position-1),value))
+   && (position == last || compare_(value, *position))) {
        return vector_.insert(position, value);
    }
    return insert(value).first;
@@ -424,7 +426,7 @@ RandomAccessSet<Key,Compare,Alloc>::swap
 )
 {
    vector_.swap(rhs.vector_);
-   compare_=rhs.compare_;
+   std::swap(compare_,rhs.compare_);
 }
 
 /// clear the set
-- 
2.43.0


From 1dcf25143636ef6fb38767a67f902003b5ace966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:05 +0000
Subject: [PATCH 046/162] fix: RandomAccessSet: rbegin and rend compile

---
 .../opengm/datastructures/randomaccessset.hxx  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7f1556d..a89842e 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -51,6 +51,8 @@ public:
    typedef typename VectorType::const_pointer const_pointer;
    /// const reverse iterator
    typedef typename VectorType::const_reverse_iterator	const_reverse_iterator;
+   /// reverse iterator
+   typedef typename VectorType::reverse_iterator	reverse_iterator;
 
    // memeber functions:
    // constructor
@@ -67,13 +69,13 @@ public:
    // iterators
    const_iterator begin() const;
    const_iterator end() const;
-   const_iterator rbegin() const;
-   const_iterator rend() const;
+   const_reverse_iterator rbegin() const;
+   const_reverse_iterator rend() const;
 
    iterator begin();
    iterator end();
-   iterator rbegin();
-   iterator rend();
+   reverse_iterator rbegin();
+   reverse_iterator rend();
    bool empty() const;
    size_type size() const;
    size_type max_size() const;
@@ -232,7 +234,7 @@ RandomAccessSet<Key,Compare,Alloc>::end() const
 /// reverse const begin iterator
 /// \returns reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 {
    return vector_.rbegin();
@@ -241,7 +243,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 /// reverse const end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend() const
 {
     return vector_.rend();
@@ -268,7 +270,7 @@ RandomAccessSet<Key,Compare,Alloc>::end()
 /// reverse  begin iterator
 /// \param reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin()
 {
    return vector_.rbegin();
@@ -277,7 +279,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin()
 /// reverse end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend()
 {
     return vector_.rend();
-- 
2.43.0


From 47c6df656590f98763a5d2b269e73c6a4070827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 047/162] fix: AccessorIterator: dereferencing a constant
 iterator returned a reference to a temporary

---
 include/opengm/utilities/accessor_iterator.hxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..7b7cc7d 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,13 @@ public:
       >::type,
       value_type&
    >::type reference;
+   // fundamental values are returned by value, the accessor may compute them
+   typedef typename meta::If
+   <
+      meta::IsFundamental<value_type>::value,
+      const value_type,
+      const value_type&
+   >::type const_reference;
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +103,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -225,7 +232,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -241,7 +248,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From a7c4e565c96cc2bd13ebf459a4cb32fe50ce8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 048/162] fix: FactorVariablesAccessor: non-const access
 returned numbers of labels, GmLabelFactorLabelAccessor is comparable

---
 include/opengm/utilities/shape_accessor.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index 6d9b45e..de32af7 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -132,7 +132,7 @@ namespace opengm {
          { return gmLabelIter_[factor_->variableIndex(j)]; }
       const value_type operator[](const size_t j) const 
          { return gmLabelIter_[factor_->variableIndex(j)]; }
-      bool operator==(const FactorShapeAccessor<FACTOR> & other) const 
+      bool operator==(const GmLabelFactorLabelAccessor<FACTOR, GM_LABEL_ITER> & other) const 
       { return factor_ == other.factor_ && gmLabelIter_==other.gmLabelIter_; 
       }
    
@@ -162,7 +162,7 @@ namespace opengm {
       IndexType size() const 
          { return factor_ == 0 ? 0 : factor_->numberOfVariables(); }
       reference operator[](const size_t j) 
-         { return factor_->numberOfLabels(j); }
+         { return factor_->variableIndex(j); }
       const value_type operator[](const size_t j) const 
          { return factor_->variableIndex(j); }
       bool operator==(const FactorVariablesAccessor<FACTOR> & other) const 
-- 
2.43.0


From b6052b21eba4f7e3a5f2f77e4a9b01c42fe183e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 049/162] fix: VectorView: a non-constant view of a constant
 vector can be read (its accessors did not compile)

---
 include/opengm/utilities/vector_view.hxx | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/include/opengm/utilities/vector_view.hxx b/include/opengm/utilities/vector_view.hxx
index 1c8f4c3..de0f4ac 100644
--- a/include/opengm/utilities/vector_view.hxx
+++ b/include/opengm/utilities/vector_view.hxx
@@ -57,13 +57,6 @@ public:
 	}
 
 
-	iterator begin(){
-		return vectorPtr_->begin()+start_;
-	}
-	iterator end(){
-		return vectorPtr_->begin()+start_+size_;
-	}
-
 	const_iterator begin()const{
 		return vectorPtr_->begin()+start_;
 	}
@@ -78,10 +71,6 @@ public:
 	const ValueType & operator[](const IndexType i)const{
 		return (*vectorPtr_)[start_+i];
 	}
-	ValueType & operator[](const IndexType i){
-		return (*vectorPtr_)[start_+i];
-	}
-
 
 private:
 	const VectorType * vectorPtr_;
-- 
2.43.0


From 74e821f54b992a2118697099caa964c179702333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 050/162] fix: SubShapeWalker: fixed coordinates may be given
 in any order

---
 include/opengm/utilities/indexing.hxx | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index f85bc40..ca5f071 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -55,13 +55,11 @@ namespace opengm {
 
       /// increment coordinate in last - coordinate major order  (therefore the first coordinate is incremented first)
       inline SubShapeWalker & operator++() {
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool atFixedValue = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
                if(d == fixedCoordinateIndex_[i]) {
                   atFixedValue = true;
-                  ++counter;
                }
             }
             if(atFixedValue == false) {
@@ -91,14 +89,12 @@ namespace opengm {
       /// get the number of elements over which one wants to walk
       size_t subSize() {
          size_t result = 1;
-         size_t counter = 0;
          for(size_t d = 0; d < dimension_; ++d) {
             bool fixedVal = false;
-            for(size_t i = counter; i < fixedCoordinateIndex_.size(); ++i) {
-               if(d == fixedCoordinateIndex_[i]) ///??? replace i with counter for old version
+            for(size_t i = 0; i < fixedCoordinateIndex_.size(); ++i) {
+               if(d == fixedCoordinateIndex_[i])
                {
                   fixedVal = true;
-                  counter++;
                   break;
                }
             }
-- 
2.43.0


From 8000b7aef1d5f1ae2494145d839e541fe02694f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 051/162] fix: the in-place inverse of Integrator had no effect

---
 include/opengm/operations/integrator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/operations/integrator.hxx b/include/opengm/operations/integrator.hxx
index aa2305f..1b7be65 100644
--- a/include/opengm/operations/integrator.hxx
+++ b/include/opengm/operations/integrator.hxx
@@ -44,7 +44,7 @@ struct Integrator
    /// inverse operation (in-place)
    template<class T1, class T2>
       static void iop(const T1& in1,  T2& out)
-         { out - in1; }
+         { out -= in1; }
 
    /// inverse operation (call by reference)
    template<class T1,class T2,class T3>
-- 
2.43.0


From 486dfadb7d9eaec4dc1001f34a699da03d7e25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 052/162] fix: Accumulation::neutral returned the size of the
 state

---
 include/opengm/utilities/accumulation.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index 61039aa..f1316c8 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -58,7 +58,7 @@ template<class Value, class State, class Accumulator>
 inline typename Accumulation<Value, State, Accumulator>::ValueType
 Accumulation<Value, State, Accumulator>::neutral() const
 {
-   return state_.size();
+   return Accumulator::template neutral<ValueType>();
 }
    
 template<class Value, class State, class Accumulator>
-- 
2.43.0


From 63f635f0504c399db729ea475beed7aaa1bdb76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 053/162] fix: Accumulation had no state when every value
 equals the neutral element

---
 include/opengm/utilities/accumulation.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index f1316c8..61d51f3 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -110,7 +110,7 @@ Accumulation<Value, State, Accumulator>::operator()
    const ValueType& value,
    const opengm::FastSequence<size_t>& state
 ) {
-   if(Accumulator::bop(value, value_)) {
+   if(Accumulator::bop(value, value_) || state_.size() != state.size()) {
       state_ = state;
       OPENGM_ASSERT(state_.size()==state.size());
    }
@@ -127,7 +127,7 @@ Accumulation<Value, State, Accumulator>::operator()
    const CONTAINER & state
 )
 {
-   if(Accumulator::bop(value, value_)) {
+   if(Accumulator::bop(value, value_) || state_.size() != state.size()) {
       state_.resize(state.size());
       for(size_t i=0;i<state.size();++i) {
          state_[i] = state[i];
-- 
2.43.0


From 7258eaf67ab4da875cfedeb91e38f5713c391bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 054/162] fix: Tribool comparisons took True for different from
 neither and Maybe for False

---
 include/opengm/utilities/tribool.hxx | 37 +++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 30b4706..3c460b7 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -24,7 +24,11 @@ namespace opengm {
       bool operator==(const bool a) const;
       template<class T>
          bool operator==(T a) const;
+      bool operator==(const Tribool&) const;
       bool operator!=(const bool a) const;
+      template<class T>
+         bool operator!=(T a) const;
+      bool operator!=(const Tribool&) const;
       operator bool() const;
       bool operator!() const;
       bool maybe() const;
@@ -116,7 +120,16 @@ namespace opengm {
       T a
    ) const
    {
-      return static_cast<int>(a) == value_;
+      return Tribool(a).value_ == value_;
+   }
+
+   inline bool 
+   Tribool::operator==
+   (
+      const Tribool& a
+   ) const
+   {
+      return a.value_ == value_;
    }
 
    inline bool 
@@ -125,8 +138,26 @@ namespace opengm {
       const bool a
    ) const
    {
-      return (value_ != Tribool::True && a == true)
-         || (value_ != Tribool::True && a == false);
+      return !(*this == a);
+   }
+
+   template<class T>
+   inline bool 
+   Tribool::operator!=
+   (
+      T a
+   ) const
+   {
+      return !(*this == a);
+   }
+
+   inline bool 
+   Tribool::operator!=
+   (
+      const Tribool& a
+   ) const
+   {
+      return !(*this == a);
    }
 
    inline Tribool::operator bool() const
-- 
2.43.0


From ce3b183c04a619fc71a489f9804384232ab2e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 055/162] fix: neutral elements of Minimizer and Maximizer were
 0 for integer types

---
 include/opengm/operations/maximizer.hxx | 8 ++++----
 include/opengm/operations/minimizer.hxx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/operations/maximizer.hxx b/include/opengm/operations/maximizer.hxx
index 7eb545d..19a74f4 100644
--- a/include/opengm/operations/maximizer.hxx
+++ b/include/opengm/operations/maximizer.hxx
@@ -12,22 +12,22 @@ struct Maximizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return (std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::min)()); }
 
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = (std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::min)()); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return (std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::max)()); }
 
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = (std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::max)()); }
 
    /// operation (in-place)
    template<class T1, class T2>
diff --git a/include/opengm/operations/minimizer.hxx b/include/opengm/operations/minimizer.hxx
index d8bd555..5a431b5 100644
--- a/include/opengm/operations/minimizer.hxx
+++ b/include/opengm/operations/minimizer.hxx
@@ -14,20 +14,20 @@ struct Minimizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return (std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::max)()); }
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = (std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::max)()); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return (std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::min)()); }
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = (std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : (std::numeric_limits<T>::min)()); }
       
    /// operation (in-place)
    template<class T1, class T2>
-- 
2.43.0


From 696cac7e8d74655de6cac9d3ab02cda51de257de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 056/162] fix: findInSortedSequence read before the beginning
 of an empty sequence

---
 include/opengm/utilities/sorting.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/sorting.hxx b/include/opengm/utilities/sorting.hxx
index 22e6f1d..945eaf0 100644
--- a/include/opengm/utilities/sorting.hxx
+++ b/include/opengm/utilities/sorting.hxx
@@ -17,7 +17,7 @@ findInSortedSequence
    const TYPE_TO_FIND & toFind,
    INDEXTYPE & position
 ) {
-   if(toFind>static_cast<TYPE_TO_FIND>(sequenceBegin[sequenceSize-1]))
+   if(sequenceSize==0 || toFind>static_cast<TYPE_TO_FIND>(sequenceBegin[sequenceSize-1]))
       return false;
    for(INDEXTYPE p=0;p<sequenceSize;++p) {
       if(toFind<static_cast<TYPE_TO_FIND>(sequenceBegin[p]))
-- 
2.43.0


From 3890bda7e453099a3852efe01b356bca0943759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 057/162] fix: PrimalLPBound::getFactorVariable returned the
 plan of another factor or of old marginals

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index cac675b..4f40a19 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -203,8 +203,11 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorVariab
 {
 	_checkPWFactorID(factorId,"PrimalLPBound::getFactorVariable(): ");
 
-	if (_lastActiveSolver!=factorId)
+	if ( (_lastActiveSolver!=factorId) || !IsValueBuffered(factorId) )
+	{
+		_bufferedValues[factorId]=ValueTypeNan;//the solver has to hold the solution of this factor
 		getFactorValue(factorId);
+	}
 
 	return _solver.GetSolution(&matrix);
 }
-- 
2.43.0


From 09f3213905d010cb72bfd80673bba8b2f1678ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 058/162] fix: PrimalLPBound let its transportation solver read
 a destroyed temporary

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 4f40a19..0f62dfd 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -189,7 +189,8 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorValue(
 	const typename GM::FactorType& factor=_gm[factorId];
 	IndexType var0=factor.variableIndex(0),
 			  var1=factor.variableIndex(1);
-	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),FactorWrapper<typename GM::FactorType>(factor));
+	const FactorWrapper<typename GM::FactorType> wrapper(factor);
+	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),wrapper);
 	_bufferedValues[factorId]=_solver.Solve(_unaryFactors[var0].begin(),_unaryFactors[var1].begin());
 	_lastActiveSolver=factorId;
 	}
-- 
2.43.0


From 915244632d15021e3e5d71602204a5f8f413448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 059/162] fix: PrimalLPBound::getVariableValue asserted on
 variables without unary factor

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 0f62dfd..de7b68f 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -219,9 +219,9 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getVariableValu
 	OPENGM_ASSERT(varId < _gm.numberOfVariables());
 	OPENGM_ASSERT(varId < _unaryFactors.size());
 	IndexType factorId=_mapping(varId);
-	OPENGM_ASSERT(_mapping(varId) < _gm.numberOfFactors());
 	if (factorId==VariableToFactorMapping<GM>::InvalidIndex)
 		return (ValueType)0;
+	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 
 	if (_bufferedValues[factorId] != ValueTypeNan)
 		return _bufferedValues[factorId];
-- 
2.43.0


From 0bbca24a2df269243d5ad3175d6e2c3c31838a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 060/162] fix: PrimalLPBound::ResetBuffer did not compile and
 factors of the wrong order were not refused

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index de7b68f..b34766a 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -86,7 +86,7 @@ public:
 	template<class Matrix>
 	ValueType getFactorVariable(IndexType factorId, Matrix& matrix); //pairwise factor factorId, buffering of the solution is performed
 
-	void ResetBuffer(){_bufferedValues(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
+	void ResetBuffer(){_bufferedValues.assign(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
 	bool IsValueBuffered(IndexType factorId)const{OPENGM_ASSERT(factorId<_bufferedValues.size()); return (_bufferedValues[factorId] != ValueTypeNan);}
 	bool IsFactorVariableBuffered(IndexType factorId)const{return _lastActiveSolver==factorId;}
 	static void CheckDuplicateUnaryFactors(const GM& gm);
@@ -176,7 +176,7 @@ void PrimalLPBound<GM,ACC>::_checkPWFactorID(IndexType factorId, const std::stri
 {
 	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 	if (_gm[factorId].numberOfVariables() !=2 )
-		std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
+		throw std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
 }
 
 template <class GM,class ACC>
-- 
2.43.0


From 118cf5575588b8465e915a002fb62e34195c905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 061/162] fix: transposing a non-square MatrixWrapper gave the
 result the wrong shape

---
 include/opengm/inference/auxiliary/transportationsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index f0d3373..9779fe3 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -558,7 +558,7 @@ private:
 template<class T>
 void transpose(const MatrixWrapper<T>& input, MatrixWrapper<T>& result)
 {
- result.resize(input.xsize(),input.ysize());
+ result.resize(input.ysize(),input.xsize());
  for (size_t x=0;x<input.xsize();++x)
   for (size_t y=0;y<input.ysize();++y)
 	  result(y,x)=input(x,y);
-- 
2.43.0


From bf2e45f1fabc11cd97b027055ee7d8c95bba5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 062/162] fix: squeezing a non-simple view to a scalar left the
 view in an invalid state

---
 include/opengm/datastructures/marray/marray.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..0f2cda4 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -2425,6 +2425,7 @@ View<T, isConst, A>::squeeze()
             if(newDimension == 0) {
                 geometry_.resize(0);
                 geometry_.size() = 1;
+                geometry_.isSimple() = true;
             }
             else {
                 for(size_t j=0, k=0; j<geometry_.dimension(); ++j) {
-- 
2.43.0


From b7c256be16928a83f127f7bd20f3e8c5eb3b7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 063/162] fix: decrementing the end iterator of a non-simple
 view went to a wrong element

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0f2cda4..b42eb6b 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4385,7 +4385,7 @@ Iterator<T, isConst, A>::operator--()
         --pointer_;
     }
     else {
-        if(index_ == view_->size()) {
+        if(index_ + 1 == view_->size()) {
             // decrement from end iterator
             --pointer_;
             if(view_->coordinateOrder() == LastMajorOrder) {
-- 
2.43.0


From 0a9d57f93b3b0900d1ac5c8d147b1c4af174b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 064/162] fix: adding a negative distance to an end iterator of
 a view had no effect

---
 include/opengm/datastructures/marray/marray.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index b42eb6b..fbdfd94 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4255,6 +4255,9 @@ Iterator<T, isConst, A>::operator+=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x < 0) {
+        return *this -= -x;
+    }
     if(index_ < view_->size()) { // view initialized and iterator not at the end
         if(index_ + x < view_->size()) {
             index_ += x;
-- 
2.43.0


From eff550d460630a0519d8362076d2b53ba1f1df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 065/162] fix: resizing an array to a scalar ignored the
 initial value and the coordinate order

---
 include/opengm/datastructures/marray/marray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index fbdfd94..e92d8f5 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -3892,10 +3892,10 @@ Marray<T, A>::resize
 {
     if(std::distance(begin,end)==0) {
        if(this->size()>0) {
-       *this=Marray<T,A>((*this).operator()(0));
+       *this=Marray<T,A>((*this).operator()(0), this->coordinateOrder());
        }
        else{
-          *this=Marray<T,A>(T());
+          *this=Marray<T,A>(value, this->coordinateOrder());
        }
 
     }
-- 
2.43.0


From 5d3b6f2ffe495f248266428f37a233483371603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 066/162] fix: subtracting 0 from the end iterator of a
 non-simple view accessed an element behind the end

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index e92d8f5..672bfd2 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4304,7 +4304,7 @@ Iterator<T, isConst, A>::operator-=
     if(view_->isSimple()) {
         pointer_ -= x;
     }
-    else {
+    else if(index_ < view_->size()) { // otherwise, still at the end
         pointer_ = &((*view_)(index_));
         view_->indexToCoordinates(index_, coordinates_.begin());
     }
-- 
2.43.0


From 7fe9858fd8f8cdecb88cdd0625841d2290dfb94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 067/162] fix: isGeneralizedPotts evaluated labelings outside
 the shape of the function

Functions with fewer labels than variables (or one label) were evaluated
at labels they do not have; the fourth-order case also wrote to stdout.
---
 .../functions/function_properties_base.hxx    | 117 ++++--------------
 1 file changed, 22 insertions(+), 95 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 68882d5..6462dbd 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -397,107 +397,34 @@ template<class FUNCTION, class VALUE, class INDEX, class LABEL>
 inline bool 
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isGeneralizedPotts() const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
-   if(f.dimension()==2) {
-      LABEL l[] = {0, 1};
-      VALUE v0 = f(l);
-      l[1]=0;
-      VALUE v1 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) {
-            if((l[0]==l[1] && f(l)!=v1) || ((l[0]!=l[1] && f(l)!=v0)) ) return false;
-         }
-      }
-      return true;
+   const size_t dimension = f.dimension();
+   if(dimension < 2 || dimension > 4) {
+      return false;
    }
-   else  if(f.dimension()==3) {
-      LABEL l[] = {0, 1, 2};
-      VALUE v000 = f(l);
-      l[2]=0; l[1]=1; l[0]=1;
-      VALUE v001 = f(l);
-      l[2]=1; l[1]=0; l[0]=1;
-      VALUE v010 = f(l);
-      l[2]=1; l[1]=1; l[0]=0;
-      VALUE v100 = f(l); 
-      l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) {
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000) ) return false;
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v001) ) return false;
-               if((l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010) ) return false;
-               if((l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100) ) return false;
-               if((l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111) ) return false;
+   // the value may only depend on which of the labels are equal
+   VALUE values[64];
+   bool known[64] = {false};
+   ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), dimension);
+   for(INDEX i=0;i<f.size();++i, ++shapeWalker) {
+      size_t partition = 0;
+      size_t bit = 1;
+      for(size_t j=1; j<dimension; ++j) {
+         for(size_t k=0; k<j; ++k, bit*=2) {
+            if(shapeWalker.coordinateTuple()[j] == shapeWalker.coordinateTuple()[k]) {
+               partition += bit;
             }
          }
       }
-      return true;
-   } 
-   else  if(f.dimension()==4) {
-      LABEL l[] = {0, 1, 2, 3};
-      VALUE v000000 = f(l);
-      l[3]=2; l[2]=1; l[1]=0;l[0]=0;
-      VALUE v000001 = f(l);
-      l[3]=2; l[2]=0; l[1]=1;l[0]=0;
-      VALUE v000010 = f(l);
-      l[3]=2; l[2]=0; l[1]=0;l[0]=1;
-      VALUE v000100 = f(l); 
-      l[3]=1; l[2]=0; l[1]=0;l[0]=0; //3-1
-      VALUE v000111 = f(l);
-      l[3]=0; l[2]=1; l[1]=2; l[0]=0;
-      VALUE v001000 = f(l);
-      l[3]=0; l[2]=1; l[1]=1; l[0]=0;
-      VALUE v001100 = f(l);
-      l[3]=0; l[2]=1; l[1]=0; l[0]=0; //3-1
-      VALUE v011001 = f(l);
-      l[3]=0; l[2]=0; l[1]=0; l[0]=1; //3-1
-      VALUE v110100 = f(l); 
-      l[3]=0; l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111111 = f(l);
-      l[3]=1; l[2]=1; l[1]=0; l[0]=0;
-      VALUE v100001 = f(l); 
-      l[3]=1; l[2]=0; l[1]=1; l[0]=0;
-      VALUE v010010 = f(l); 
-      l[3]=0; l[2]=0; l[1]=1; l[0]=2;
-      VALUE v100000 = f(l); 
-      l[3]=0; l[2]=1; l[1]=0; l[0]=2;
-      VALUE v010000 = f(l);
-      l[3]=0; l[2]=0; l[1]=1; l[0]=0; //3-1
-      VALUE v101010 = f(l); 
-
-
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) { 
-               for(l[3]=0;l[3]<f.shape(3);++l[3]) {
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v000001) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v000010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000100) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v000111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001100) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v010000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v011001) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v110100) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]==l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v100001) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100000) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v101010) ) {std::cout<<"1"; return false;}
-               }
-            }
-         }
+      const VALUE value = f(shapeWalker.coordinateTuple().begin());
+      if(!known[partition]) {
+         known[partition] = true;
+         values[partition] = value;
+      }
+      else if(value != values[partition]) {
+         return false;
       }
-      return true;
-   }
-   else{
-      return false;
    }
+   return true;
 }
 
 template<class FUNCTION, class VALUE, class INDEX, class LABEL>
-- 
2.43.0


From e8e0c33da2ec3158c0bfb27bb66a9d140b1043ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 068/162] fix: isTruncatedSquaredDifference claimed functions
 that are none

Any value could be the truncation value where the untruncated value
exceeds it, also where the distance is smaller than elsewhere.
---
 .../opengm/functions/function_properties_base.hxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 6462dbd..a134df8 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -302,15 +302,22 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedSquaredDifference() cons
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
-      VALUE truncated=f(c);
+      if(f.shape(0) >= f.shape(1)) {
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+      }
+      else {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      const VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             d*=d;
-            const VALUE fval=f(c);
             const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            // with a negative weight, the truncation bounds the values from below
+            const VALUE expected= weight < static_cast<VALUE>(0) ? (truncated > compare ? truncated : compare) : (truncated < compare ? truncated : compare);
+            if( isNumericEqual(f(c), expected)==false) {
                return false;
             }
          } 
-- 
2.43.0


From 10f086541fe7a63af0608708dacb11f1d2e1e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 069/162] fix: isTruncatedAbsoluteDifference claimed functions
 that are none

Any value could be the truncation value where the untruncated value
exceeds it, also where the distance is smaller than elsewhere.
---
 .../opengm/functions/function_properties_base.hxx | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index a134df8..25b9ff8 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -358,14 +358,21 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedAbsoluteDifference() con
       //get possible weight
       VALUE weight=f(c);
       //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
-      VALUE truncated=f(c);
+      if(f.shape(0) >= f.shape(1)) {
+         c[0]=f.shape(0)-static_cast<LABEL>(1);
+      }
+      else {
+         c[0]=0;
+         c[1]=f.shape(1)-static_cast<LABEL>(1);
+      }
+      const VALUE truncated=f(c);
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
-            const VALUE fval=f(c);
             const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            // with a negative weight, the truncation bounds the values from below
+            const VALUE expected= weight < static_cast<VALUE>(0) ? (truncated > compare ? truncated : compare) : (truncated < compare ? truncated : compare);
+            if( isNumericEqual(f(c), expected)==false) {
                return false;
             }
          } 
-- 
2.43.0


From 705eb937ee4053f4309b0912632dcae651c5a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 070/162] fix: min, max and minMax of a Potts function of two
 single-label variables

reported the value for different labels, which no labeling attains.
---
 include/opengm/functions/potts.hxx | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..66efe19 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,14 +254,15 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
-   return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
+   // if both variables have only one label, the labels cannot be different
+   return size() == 1 || valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
 }
 
 template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
-   return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
+   return size() != 1 && valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
 }
 
 template<class T, class I, class L>
@@ -292,12 +293,7 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
-   if(valueEqual_<valueNotEqual_) {
-      return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
-   }
-   else {
-      return MinMaxFunctor<T>(valueNotEqual_, valueEqual_);
-   }
+   return MinMaxFunctor<T>(min(), max());
 }
 
 } // namespace opengm
-- 
2.43.0


From b8c73cbcc9c619b607a8cbf542cfbfd3c22138c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 071/162] fix: equal Potts functions of two single-label
 variables compared unequal

if they differed in the value for different labels, which no labeling attains.
---
 include/opengm/functions/potts.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index 66efe19..810365d 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -206,7 +206,7 @@ PottsFunction<T, I, L>::operator==
    return  numberOfLabels1_ == fb.numberOfLabels1_ &&
       numberOfLabels2_ == fb.numberOfLabels2_ &&
       valueEqual_      == fb.valueEqual_      &&
-      valueNotEqual_   == fb.valueNotEqual_;
+      (valueNotEqual_  == fb.valueNotEqual_ || size() == 1);
 }
 
 template<class T, class I, class L>
-- 
2.43.0


From ef3a16af94009f9b76fd5d935cc3f55fb012804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 072/162] fix: Factor::gmToFactorLabelsBegin did not compile

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index e515971..c179f44 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -205,6 +205,7 @@ public:
     typename GmToFactorLabelIter<LABEL_ITER>::Iter
     gmToFactorLabelsBegin(LABEL_ITER gmLabelsBegin)const{
         typedef typename GmToFactorLabelIter<LABEL_ITER>::Accessor Accessor;
+        typedef typename GmToFactorLabelIter<LABEL_ITER>::Iter Iter;
         Accessor accessor(variableIndicesBegin(),variableIndicesEnd(), gmLabelsBegin);
         return Iter(accessor, 0);
     }
-- 
2.43.0


From 0d2e0ab90890998fb8f9ffa5dfc3cdde5e511640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 073/162] fix: in-place binary operation on an independent
 factor and a scalar did not compile

---
 .../opengm/graphicalmodel/graphicalmodel_factor_operator.hxx    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx
index 33ffd53..3c6984a 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor_operator.hxx
@@ -523,7 +523,7 @@ namespace functionwrapper {
          ) {
             typedef typename opengm::BinaryToUnaryFunctor<B, OP, false> BTUFunctor;
             BTUFunctor btufunctor(b, op);
-            opengm::UnaryOperationInplaceImpl<A, BTUFunctor>::op(a, btufunctor);
+            opengm::functionwrapper::unary::InplaceOperationWrapperSelector<A, BTUFunctor>::op(a, btufunctor);
          }
       };
 
-- 
2.43.0


From ea31d88fdde92b87d3a9800ad4809e2d2ea8fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 074/162] fix: IndependentFactor::subtractOffset did not
 compile unless labels are size_t

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index c179f44..fa38cd0 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -1327,8 +1327,7 @@ IndependentFactor<T, I, L> ::subtractOffset() {
    }
    else {
       T v;
-      std::vector<size_t> states;
-      opengm::accumulate<Minimizer>(*this, v, states);
+      opengm::accumulate<Minimizer>(*this, v);
       (*this) -= v;
    }
 }
-- 
2.43.0


From 746707ff8f5fd515d09c0be67d0f338286a162ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 075/162] fix: accumulating a factor without variables replaced
 its value by zero

---
 include/opengm/functions/operations/accumulator.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/operations/accumulator.hxx b/include/opengm/functions/operations/accumulator.hxx
index 2e12443..3bcb31b 100644
--- a/include/opengm/functions/operations/accumulator.hxx
+++ b/include/opengm/functions/operations/accumulator.hxx
@@ -198,8 +198,7 @@ void AccumulateSomeImpl<A, B, ACC>::op
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
       size_t indexSequenceToScalar[] = {0};
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
+      acc(a(indexSequenceToScalar));
       size_t shapeToScalarArray[] = {0};
       b.resize(shapeToScalarArray, shapeToScalarArray);
       b(indexSequenceToScalar) = acc.value();
@@ -290,10 +289,9 @@ void AccumulateSomeInplaceImpl<A, ACC>::op
    }
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
-      a.assign();
-      a(0) = acc.value();
+      size_t indexSequenceToScalar[] = {0};
+      acc(a(indexSequenceToScalar));
+      a(indexSequenceToScalar) = acc.value();
    }
    OPENGM_ASSERT(a.dimension() == viA.size());
    OPENGM_ASSERT(a.dimension() != 0 || (a.dimension() == 0 && a.size() == 1));
-- 
2.43.0


From a62b4254c1360a498f6aabc4a0b0c0aa8a411446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 076/162] fix: operations on factors without variables resized
 the result to no entries

---
 include/opengm/functions/operations/operator.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/opengm/functions/operations/operator.hxx b/include/opengm/functions/operations/operator.hxx
index 56cda43..f6768a7 100644
--- a/include/opengm/functions/operations/operator.hxx
+++ b/include/opengm/functions/operations/operator.hxx
@@ -182,7 +182,7 @@ void BinaryOperationImpl<A, B, C, OP>::op
    }
    else if(dimA == 0 && dimB == 0) {
       const size_t scalarIndex=0;
-      c.resize(&scalarIndex, &scalarIndex+1);
+      c.resize(&scalarIndex, &scalarIndex);
       c(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
    }
    else if(dimA == 0) {
@@ -252,7 +252,6 @@ void BinaryOperationInplaceImpl<A, B, OP>::op
       }
       else {
          const size_t scalarIndex=0;
-         a.resize(&scalarIndex, &scalarIndex+1);
          a(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
          via.assign(viaNew.begin(),viaNew.end());
       }
@@ -299,7 +298,7 @@ void UnaryOperationImpl<A, B, OP>::op
    }
    else {
       const size_t scalarIndex=0;
-      b.resize(&scalarIndex, &scalarIndex+1);
+      b.resize(&scalarIndex, &scalarIndex);
       b(&scalarIndex) = op(a(&scalarIndex));
    }
 }
-- 
2.43.0


From b5c55a39c590d9aa40c9918e3bd5c2f16bf440eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 077/162] fix: ViewConvertFunction did not compile for a value
 type other than the model's

---
 include/opengm/functions/view_convert_function.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/functions/view_convert_function.hxx b/include/opengm/functions/view_convert_function.hxx
index 1cfad00..a783aef 100644
--- a/include/opengm/functions/view_convert_function.hxx
+++ b/include/opengm/functions/view_convert_function.hxx
@@ -67,7 +67,7 @@ namespace detail_convert_function {
 template<class GM,class ACC,class VALUE_TYPE>
 class ViewConvertFunction
 : public FunctionBase<ViewConvertFunction<GM,ACC,VALUE_TYPE>, 
-    typename GM::ValueType, typename GM::IndexType, typename GM::LabelType>
+    VALUE_TYPE, typename GM::IndexType, typename GM::LabelType>
 {
 public:
    typedef VALUE_TYPE ValueType;
@@ -122,7 +122,7 @@ ViewConvertFunction<GM,ACC,VALUE_TYPE>::operator()
 (
    Iterator begin
 ) const {
-   return detail_convert_function::ValueToProbability<OperatorType,ACC,ValueType>::convert(factor_->operator()(begin),inverseTemperature_);
+   return detail_convert_function::ValueToProbability<OperatorType,ACC,ValueType>::convert(static_cast<ValueType>(factor_->operator()(begin)),inverseTemperature_);
 }
 
 template<class GM,class ACC,class VALUE_TYPE>
-- 
2.43.0


From 1b3d1928696c0a7ed7969b4a54bf224beff41371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 078/162] fix: ViewFixVariablesFunction mixed up variables if
 positions were not ascending

---
 include/opengm/functions/view_fix_variables_function.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opengm/functions/view_fix_variables_function.hxx b/include/opengm/functions/view_fix_variables_function.hxx
index ddeda76..725ed8a 100644
--- a/include/opengm/functions/view_fix_variables_function.hxx
+++ b/include/opengm/functions/view_fix_variables_function.hxx
@@ -2,6 +2,9 @@
 #ifndef OPENGM_VIEW_FIX_VARIABLES_FUNCTION_HXX
 #define OPENGM_VIEW_FIX_VARIABLES_FUNCTION_HXX
 
+#include <algorithm>
+#include <vector>
+
 #include "opengm/functions/function_properties_base.hxx"
 
 namespace opengm {
@@ -10,6 +13,8 @@ namespace opengm {
 template<class I, class L>
 struct PositionAndLabel {
    PositionAndLabel(const I = 0, const L = 0);
+   bool operator<(const PositionAndLabel& other) const
+      { return position_ < other.position_; }
    I position_;
    L label_;
 };
@@ -81,6 +86,8 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
    size_(1),
    lookUp_(factor.numberOfVariables()-positionAndLabels.size())
 {
+   // the look-up below requires ascending positions
+   std::sort(positionAndLabels_.begin(), positionAndLabels_.end());
    if(opengm::NO_DEBUG==false) {
       for(size_t i=0; i<positionAndLabels_.size(); ++i) {
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
@@ -116,6 +123,8 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
    size_(1),
    lookUp_(factor.numberOfVariables()-positionAndLabels.size())
 {
+   // the look-up below requires ascending positions
+   std::sort(positionAndLabels_.begin(), positionAndLabels_.end());
    if(!(opengm::NO_DEBUG)) {
       for(size_t i=0; i<positionAndLabels_.size(); ++i) {
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
-- 
2.43.0


From 74a63dd90bf9788476dbb68150c969df35638299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 079/162] fix: WeightConstraints lost the bounds of constraints
 and did not give their sizes

---
 include/opengm/graphicalmodel/weights.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/weights.hxx b/include/opengm/graphicalmodel/weights.hxx
index ee3ed2a..b0586bf 100644
--- a/include/opengm/graphicalmodel/weights.hxx
+++ b/include/opengm/graphicalmodel/weights.hxx
@@ -214,7 +214,7 @@ namespace learning{
         }
 
         const std::vector<size_t> & constraintSizes()const{
-            return cLowerBounds_;
+            return cSize_;
         }
         const std::vector<T> & constraintLowerBounds()const{
             return cLowerBounds_;
@@ -248,6 +248,10 @@ namespace learning{
             // could be added by the user
             cOffset_ +=cSize;
 
+            // store bounds of constraint
+            cLowerBounds_.push_back(lowerBound);
+            cUpperBounds_.push_back(upperBound);
+
             // copy indices and coefficients
             for( ;indicesBegin!=indicesEnd; ++indicesBegin,++coeffBegin){
                 cIndices_.push_back(*indicesBegin);
-- 
2.43.0


From 2d1b3ed98d11c5aa7ae65fb9cd586dbf0ed7dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 080/162] fix: LWeightedSumOfFunctions lost everything when it
 was deserialised

---
 .../opengm/functions/learnable/lweightedsum_of_functions.hxx   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 62314f4..0cd7f70 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -257,6 +257,9 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
          ++valueInIterator;
       }
    }   
+   dst.shape_     = shape;
+   dst.weightIDs_ = parameterIDs;
+   dst.feat_      = feat;
 }
 
 } // namespace opengm
-- 
2.43.0


From dd145d4f2b19c881a41017b71e96968bbb3babd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 081/162] fix: addSharedFunction merged learnable functions
 whose values were equal only for the current weights

---
 include/opengm/functions/learnable/lpotts.hxx            | 4 ++++
 include/opengm/functions/learnable/lunary.hxx            | 6 ++++++
 .../functions/learnable/lweightedsum_of_functions.hxx    | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/include/opengm/functions/learnable/lpotts.hxx b/include/opengm/functions/learnable/lpotts.hxx
index a9938c6..4fe05f0 100644
--- a/include/opengm/functions/learnable/lpotts.hxx
+++ b/include/opengm/functions/learnable/lpotts.hxx
@@ -58,6 +58,10 @@ public:
      {return weightIDs_[weightNumber];} //dummy
    template<class ITERATOR> 
    T weightGradient(size_t,ITERATOR) const;
+   /// equal parameters and the same weights (not merely equal values for the current weights)
+   bool operator==(const LPotts& other) const
+      {return weights_ == other.weights_ && numLabels_ == other.numLabels_
+         && weightIDs_ == other.weightIDs_ && feat_ == other.feat_;}
 
    bool isPotts() const {return true;}
    bool isGeneralizedPotts() const {return true;}
diff --git a/include/opengm/functions/learnable/lunary.hxx b/include/opengm/functions/learnable/lunary.hxx
index cc1b930..675058f 100644
--- a/include/opengm/functions/learnable/lunary.hxx
+++ b/include/opengm/functions/learnable/lunary.hxx
@@ -83,6 +83,12 @@ public:
 
     template<class ITERATOR> 
     T weightGradient(size_t,ITERATOR) const;
+    /// equal parameters and the same weights (not merely equal values for the current weights)
+    bool operator==(const LUnary& other) const{
+        return weights_ == other.weights_ && numberOfLabels_ == other.numberOfLabels_
+            && offsets_ == other.offsets_ && weightIds_ == other.weightIds_
+            && features_ == other.features_;
+    }
 
 private:
 
diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 0cd7f70..e7a1ea0 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -54,6 +54,15 @@ public:
      {return weightIDs_[weightNumber];} //dummy
    template<class ITERATOR> 
    T weightGradient(size_t,ITERATOR) const;
+   /// equal parameters and the same weights (not merely equal values for the current weights)
+   bool operator==(const LWeightedSumOfFunctions& other) const {
+      if(weights_ != other.weights_ || shape_ != other.shape_ || weightIDs_ != other.weightIDs_)
+         return false;
+      for(size_t i=0; i<feat_.size(); ++i)
+         if(!std::equal(feat_[i].begin(), feat_[i].end(), other.feat_[i].begin()))
+            return false;
+      return true;
+   }
 
 protected:
    mutable const opengm::learning::Weights<T>* weights_;
-- 
2.43.0


From dfb9aac5ce2864714d14d3bb8cbd87f967f1cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 082/162] fix: the order of indicator variables was not an
 order

---
 .../datastructures/indicator_variable.hxx     | 93 +++----------------
 1 file changed, 12 insertions(+), 81 deletions(-)

diff --git a/include/opengm/datastructures/indicator_variable.hxx b/include/opengm/datastructures/indicator_variable.hxx
index e151794..37afe8b 100644
--- a/include/opengm/datastructures/indicator_variable.hxx
+++ b/include/opengm/datastructures/indicator_variable.hxx
@@ -567,103 +567,34 @@ bool operator<(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
    } else if(indicatorVar1.logicalOperatorType_ > indicatorVar2.logicalOperatorType_) {
       return false;
    } else {
-      if(indicatorVar1.variableLabelPairs_.size() > indicatorVar2.variableLabelPairs_.size()) {
-         return false;
+      if(indicatorVar1.variableLabelPairs_.size() != indicatorVar2.variableLabelPairs_.size()) {
+         return indicatorVar1.variableLabelPairs_.size() < indicatorVar2.variableLabelPairs_.size();
       }
-      if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second >= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
+      // the first difference decides
+      for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
+         if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+            return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+         } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+            return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
          }
       }
-      return true;
+      return false;
    }
 }
 
 template<class INDEX1_TYPE, class LABEL1_TYPE, class INDEX2_TYPE, class LABEL2_TYPE>
 bool operator>(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1, const IndicatorVariable<INDEX2_TYPE, LABEL2_TYPE>& indicatorVar2) {
-   if(indicatorVar1.logicalOperatorType_ < indicatorVar2.logicalOperatorType_) {
-      return false;
-   } else if(indicatorVar1.logicalOperatorType_ > indicatorVar2.logicalOperatorType_) {
-      return true;
-   } else {
-      if(indicatorVar1.variableLabelPairs_.size() < indicatorVar2.variableLabelPairs_.size()) {
-         return false;
-      }
-      if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second <= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
-         }
-      }
-      return true;
-   }
+   return indicatorVar2 < indicatorVar1;
 }
 
 template<class INDEX1_TYPE, class LABEL1_TYPE, class INDEX2_TYPE, class LABEL2_TYPE>
 bool operator<=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1, const IndicatorVariable<INDEX2_TYPE, LABEL2_TYPE>& indicatorVar2) {
-   if(indicatorVar1.logicalOperatorType_ < indicatorVar2.logicalOperatorType_) {
-      return true;
-   } else if(indicatorVar1.logicalOperatorType_ > indicatorVar2.logicalOperatorType_) {
-      return false;
-   } else {
-      if(indicatorVar1.variableLabelPairs_.size() > indicatorVar2.variableLabelPairs_.size()) {
-         return false;
-      }
-      if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
-         }
-      }
-      return true;
-   }
+   return !(indicatorVar2 < indicatorVar1);
 }
 
 template<class INDEX1_TYPE, class LABEL1_TYPE, class INDEX2_TYPE, class LABEL2_TYPE>
 bool operator>=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1, const IndicatorVariable<INDEX2_TYPE, LABEL2_TYPE>& indicatorVar2) {
-   if(indicatorVar1.logicalOperatorType_ < indicatorVar2.logicalOperatorType_) {
-      return false;
-   } else if(indicatorVar1.logicalOperatorType_ > indicatorVar2.logicalOperatorType_) {
-      return true;
-   } else {
-      if(indicatorVar1.variableLabelPairs_.size() < indicatorVar2.variableLabelPairs_.size()) {
-         return false;
-      }
-      if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
-            }
-         }
-      }
-      return true;
-   }
+   return !(indicatorVar1 < indicatorVar2);
 }
 
 } // namespace opengm
-- 
2.43.0


From 9310674cd1fbef75f41711ca6231651910bc3c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 083/162] fix: constraint functions multiplied their size in
 the type of a label

---
 .../constraint_functions/linear_constraint_function.hxx       | 4 ++--
 .../constraint_functions/num_labels_limitation_function.hxx   | 2 +-
 .../soft_constraint_functions/label_cost_function.hxx         | 4 ++--
 .../soft_constraint_functions/sum_constraint_function.hxx     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
index 6fde8f2..a1e8e02 100644
--- a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
+++ b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
@@ -439,7 +439,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, const LinearConstraintsContainerType& constraints, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, size_t(1), std::multiplies<size_t>())),
      constraints_(constraints), violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
      returnValid_(returnValid), returnInvalid_(returnInvalid),
@@ -457,7 +457,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE, class CONSTRAINTS_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, CONSTRAINTS_ITERATOR_TYPE constraintsBegin, CONSTRAINTS_ITERATOR_TYPE constraintsEnd, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, size_t(1), std::multiplies<size_t>())),
      constraints_(constraintsBegin, constraintsEnd),
      violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
diff --git a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
index 735e3fd..bcb1531 100644
--- a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
+++ b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
@@ -456,7 +456,7 @@ inline NumLabelsLimitationFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::NumLabel
   useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
   maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
   maxNumUsedLabels_(maxNumUsedLabels),
-  size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+  size_(std::accumulate(shapeBegin, shapeEnd, size_t(1), std::multiplies<size_t>())),
   returnValid_(returnValid), returnInvalid_(returnInvalid),
   constraints_(1), violatedConstraintsIds_(1), violatedConstraintsWeights_(1),
   indicatorVariableList_(maxNumLabels_) {
diff --git a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
index 11a1ba1..e39daaf 100644
--- a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
@@ -294,7 +294,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, size_t(1), std::multiplies<size_t>())),
      costs_(costsBegin, costsEnd), useSingleCost_(false), singleLabel_(),
      singleCost_() {
    OPENGM_ASSERT(costs_.size() >= maxNumLabels_);
@@ -306,7 +306,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, size_t(1), std::multiplies<size_t>())),
      costs_(), useSingleCost_(true), singleLabel_(label), singleCost_(cost) {
    OPENGM_ASSERT(singleLabel_ < maxNumLabels_);
 }
diff --git a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
index 74c233f..22de754 100644
--- a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
@@ -312,7 +312,7 @@ inline SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::SumConstraintF
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, size_t(1), std::multiplies<size_t>())),
      coefficients_(coefficientsBegin, coefficientsEnd),
      shareCoefficients_(shareCoefficients), coefficientsOffsets_(),
      lambda_(lambda), bound_(bound) {
-- 
2.43.0


From ff085bb2bdeb5e5bcf29b22de3ce59b9c1196dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 084/162] fix: hdf5::load maps function types the model lacks
 to no type instead of the first

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 8baaf4e..cab4106 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -461,7 +461,7 @@ void load
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
-      functionIndexLookup.resize(serializationIndicies[4]);
+      functionIndexLookup.resize(serializationIndicies[4], static_cast<opengm::UInt64Type>(GM::NrOfFunctionTypes));
       typeRegisterId.resize(serializationIndicies[4]);
       for(size_t i=0; i<numberOfFunctions.size(); ++i) {
          //const size_t fRegId=GetFunctionRegistration<GM, 0, GM::NrOfFunctionTypes, meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value>::get(i);
-- 
2.43.0


From caf8118cc3fec8ab9f534e89b96137c68343ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 085/162] fix: hdf5::load forgets what the model held before

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index cab4106..868a00d 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -436,6 +436,7 @@ void load
 {
    typedef typename GM::ValueType ValueType;
    typedef typename GM::FactorType FactorType;
+   gm = GM();
    hid_t file = marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION);
    hid_t group =marray::hdf5::openGroup(file, datasetName);
    marray::Vector<opengm::UInt64Type> serializationIndicies;
-- 
2.43.0


From 9ce78c32f86dacbfd546ccc94a012dd31acba301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 086/162] fix: hdf5::save and hdf5::load close the file when
 they throw

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 43 +++++++++++++------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 868a00d..d99c2c0 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -28,6 +28,25 @@ namespace opengm {
 namespace hdf5 {
 
 /// \cond HIDDEN_SYMBOLS
+// closes a file or group when the scope is left, also by an exception
+class ScopedHandle {
+public:
+   ScopedHandle(const hid_t handle, void (*close)(const hid_t&))
+   :  handle_(handle), close_(close)
+   {}
+   ~ScopedHandle()
+      { close_(handle_); }
+   operator const hid_t&() const
+      { return handle_; }
+
+private:
+   ScopedHandle(const ScopedHandle&);
+   ScopedHandle& operator=(const ScopedHandle&);
+
+   hid_t handle_;
+   void (*close_)(const hid_t&);
+};
+
 template<class T>
 struct IsValidTypeForHdf5Save {
    typedef  opengm::meta::Bool<
@@ -100,7 +119,8 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
          std::stringstream ss;
          typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX;
          ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
-         hid_t group = marray::hdf5::createGroup(handle, ss.str());
+         const ScopedHandle groupHandle(marray::hdf5::createGroup(handle, ss.str()), &marray::hdf5::closeGroup);
+         const hid_t& group = groupHandle;
 
          // loop over all functions of this type
          size_t indexCounter = 0;
@@ -166,7 +186,6 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                marray::hdf5::save(group, std::string("values"), tmpValueVector);
             }
          }
-         marray::hdf5::closeGroup(group);
       }
 
       // save functions of the next type in the typelist
@@ -204,7 +223,8 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
             std::stringstream ss;
             typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX ;
             ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
-            hid_t group = marray::hdf5::openGroup(handle, ss.str());
+            const ScopedHandle groupHandle(marray::hdf5::openGroup(handle, ss.str()), &marray::hdf5::closeGroup);
+            const hid_t& group = groupHandle;
             marray::Vector<typename GM::ValueType> serializationValues;
             marray::Vector<opengm::UInt64Type> serializationIndicies;
             {
@@ -279,7 +299,6 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                valueIter+=FunctionSerialization<TypeAtIX>::valueSequenceSize(
                   meta::FieldAccess::template byIndex<IX> (gm.functionDataField_).functionData_.functions_[i]);
             }
-            marray::hdf5::closeGroup(group);
          }
       }
 
@@ -338,8 +357,10 @@ void save
    if(IsValidTypeForHdf5Save<typename GM::ValueType>::value==false) {
       throw opengm::RuntimeError( std::string("ValueType  has no support for hdf5 export") );
    }
-   hid_t file = marray::hdf5::createFile(filepath, marray::hdf5::DEFAULT_HDF5_VERSION);
-   hid_t group = marray::hdf5::createGroup(file, datasetName);
+   const ScopedHandle fileHandle(marray::hdf5::createFile(filepath, marray::hdf5::DEFAULT_HDF5_VERSION), &marray::hdf5::closeFile);
+   const hid_t& file = fileHandle;
+   const ScopedHandle groupHandle(marray::hdf5::createGroup(file, datasetName), &marray::hdf5::closeGroup);
+   const hid_t& group = groupHandle;
    std::vector<UInt64Type> serializationIndicies;
    opengm::UInt64Type storeValueTypeAs;
    // float
@@ -422,8 +443,6 @@ void save
       }
       if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
 }
 
 template<class GM>
@@ -437,8 +456,10 @@ void load
    typedef typename GM::ValueType ValueType;
    typedef typename GM::FactorType FactorType;
    gm = GM();
-   hid_t file = marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION);
-   hid_t group =marray::hdf5::openGroup(file, datasetName);
+   const ScopedHandle fileHandle(marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION), &marray::hdf5::closeFile);
+   const hid_t& file = fileHandle;
+   const ScopedHandle groupHandle(marray::hdf5::openGroup(file, datasetName), &marray::hdf5::closeGroup);
+   const hid_t& group = groupHandle;
    marray::Vector<opengm::UInt64Type> serializationIndicies;
    std::vector<opengm::UInt64Type> numberOfFunctions;
    std::vector<opengm::UInt64Type> functionIndexLookup;
@@ -551,8 +572,6 @@ void load
       }
    }
 
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
    gm.variableFactorAdjaceny_.resize(gm.numberOfVariables());
    // adjacenies
 
-- 
2.43.0


From d4f5d9593decd4fd2e33ecd40918b0e9575c3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 087/162] fix: hdf5::save writes no empty data set for a model
 without variables

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index d99c2c0..b87f7cb 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -422,7 +422,9 @@ void save
          serializationIndicies[i]=
             static_cast<opengm::UInt64Type>(gm.numberOfLabels(i));
       }
-      marray::hdf5::save(group, subDatasetName, serializationIndicies);
+      if(serializationIndicies.size() != 0) {
+         marray::hdf5::save(group, subDatasetName, serializationIndicies);
+      }
    }
    serializationIndicies.clear();
 
@@ -465,7 +467,7 @@ void load
    std::vector<opengm::UInt64Type> functionIndexLookup;
    std::vector<bool> useFunction(GM::NrOfFunctionTypes,false);
    marray::Vector<opengm::UInt64Type> typeRegisterId;
-   //size_t numberOfVariables;
+   size_t numberOfVariables;
    bool oldFormat=false;
    opengm::UInt64Type loadValueTypeAs=0;
    {
@@ -479,7 +481,7 @@ void load
       if(serializationIndicies[0] != 2 || serializationIndicies[1] != 0) {
          throw RuntimeError("This version of the HDF5 file format is not supported by this version of OpenGM.");
       }
-      //numberOfVariables=serializationIndicies[2];
+      numberOfVariables=serializationIndicies[2];
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
@@ -526,12 +528,12 @@ void load
          }
       }
    }
-   //if(numberOfVariables != 0) {
-   std::string subDatasetName("numbers-of-states");
-   marray::hdf5::load(group, subDatasetName, serializationIndicies);
-   gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
-   OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
-   //}
+   if(numberOfVariables != 0) {
+      std::string subDatasetName("numbers-of-states");
+      marray::hdf5::load(group, subDatasetName, serializationIndicies);
+      gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
+      OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
+   }
    SaveAndLoadFunctions<GM, 0, GM::NrOfFunctionTypes, opengm::meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value >::load
    (group, gm, numberOfFunctions,functionIndexLookup,useFunction,loadValueTypeAs,oldFormat);
 
-- 
2.43.0


From d6abc35e3a6af707d3e3269861c688288663abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 088/162] fix: marray::hdf5::loadHyperslab closes the data set
 when its type does not match

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index fb8ab88..94bcf11 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -654,6 +654,8 @@ void loadHyperslab(
     hid_t datatype = H5Dget_type(dataset);
     
     if(!H5Tequal(datatype, hdf5Type<T>())) {
+        H5Tclose(datatype);
+        H5Dclose(dataset);
         throw std::runtime_error("data type of stored hdf5 dataset and passed array do not match in loadHyperslab");
     }
     
-- 
2.43.0


From 7a95c3c0910ada06e113f1128df5b58c345a10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 089/162] fix: marray::hdf5::saveHyperslab writes the array in
 its own type instead of reinterpreting its memory

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 94bcf11..5bc4ca5 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -794,7 +794,7 @@ saveHyperslab(
     }
 
     // write from memspace to dataspace
-    status = H5Dwrite(dataset, datatype, memspace, dataspace, H5P_DEFAULT, &(in(0)));
+    status = H5Dwrite(dataset, hdf5Type<T>(), memspace, dataspace, H5P_DEFAULT, &(in(0)));
 
     // clean up
     H5Sclose(memspace); 
-- 
2.43.0


From 508183f5f8397b589a2b781d6ccd9784bb0bcb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 090/162] fix: accessing a scalar array by coordinates
 dereferenced an empty coordinate sequence

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 672bfd2..bf54a98 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -6486,7 +6486,7 @@ struct AccessOperatorHelper<false>
     {
         v.testInvariant();
         Assert(MARRAY_NO_DEBUG ||    v.data_ != 0 );
-        Assert(MARRAY_NO_DEBUG || v.dimension() != 0 || *it == 0);
+        // a scalar has no coordinates, it must not be dereferenced then
         size_t offset;
         v.coordinatesToOffset(it, offset);
         return v.data_[offset];
-- 
2.43.0


From e33480676ec6fbcd6ddfc71f8543330d73f71962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 091/162] fix: uai2opengm converted malformed files (missing,
 invalid or superfluous numbers) instead of refusing them

---
 src/converter/uai2opengm.cxx | 114 ++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 47 deletions(-)

diff --git a/src/converter/uai2opengm.cxx b/src/converter/uai2opengm.cxx
index e828e58..f9c07fc 100644
--- a/src/converter/uai2opengm.cxx
+++ b/src/converter/uai2opengm.cxx
@@ -16,6 +16,11 @@
 // remove leading and ending spaces of given input as this might screw up parsing the input
 void removeSpaces(std::string& input);
 
+// read one white space separated word and convert all of it, returns false if
+// there is no further word or if it is not a (non-negative) number
+bool read(std::istream& stream, size_t& value);
+bool read(std::istream& stream, double& value);
+
 // compute log of input as network types of type MARKOV store conditional probabilities
 template <class T>
 void logTransform(T& input);
@@ -81,64 +86,56 @@ int main(int argc, const char* argv[] ) {
 
    // get number of variables
    IndexType numVariables;
-   if(myuaifile.eof()) {
+   if(!read(myuaifile, numVariables)) {
       std::cerr << "Bad file format: Preamble is incomplete (Number of variables is missing)." << std::endl;
       return 1;
-   } else {
-      myuaifile >> numVariables;
    }
 
    // add variables
-   if(myuaifile.eof()) {
+   for(IndexType i=0; i<numVariables; ++i){
+      LabelType currentNumberOfStates;
+      if(!read(myuaifile, currentNumberOfStates) || currentNumberOfStates == 0) {
          std::cerr << "Bad file format: Preamble is incomplete (Cardinalities of variables is missing)." << std::endl;
          return 1;
-   } else {
-      for(IndexType i=0; i<numVariables; ++i){
-         LabelType currentNumberOfStates;
-         myuaifile >>currentNumberOfStates;
-         //std::cout <<currentNumberOfStates <<" ";
-         gm.addVariable(currentNumberOfStates);
       }
+      gm.addVariable(currentNumberOfStates);
    }
 
    // get number of factors
    IndexType numFactors;
-   if(myuaifile.eof()) {
+   if(!read(myuaifile, numFactors)) {
       std::cerr << "Bad file format: Preamble is incomplete (Number of factors is missing)." << std::endl;
       return 1;
-   } else {
-      myuaifile >> numFactors;
-      //std::cout <<std::endl<< numFactors <<std::endl;
    }
 
    // get factors;
-   std::vector<std::vector<IndexType> > factors(numFactors);
-   if(myuaifile.eof()) {
-      std::cerr << "Bad file format: Preamble is incomplete (factors are missing)." << std::endl;
-      return 1;
-   } else {
-      for(IndexType f=0;f<numFactors;++f){
-         IndexType numFactorVariables;
-         myuaifile >> numFactorVariables; 
-         factors[f].resize(numFactorVariables);
-         for(size_t i=0; i<numFactorVariables; ++i){ 
-            myuaifile >>  factors[f][i]; 
+   std::vector<std::vector<IndexType> > factors;
+   for(IndexType f=0;f<numFactors;++f){
+      IndexType numFactorVariables;
+      if(!read(myuaifile, numFactorVariables) || numFactorVariables > numVariables) {
+         std::cerr << "Bad file format: Preamble is incomplete (factors are missing)." << std::endl;
+         return 1;
+      }
+      factors.push_back(std::vector<IndexType>(numFactorVariables));
+      for(size_t i=0; i<numFactorVariables; ++i){
+         if(!read(myuaifile, factors[f][i]) || factors[f][i] >= numVariables
+            || std::find(factors[f].begin(), factors[f].begin() + i, factors[f][i]) != factors[f].begin() + i) {
+            std::cerr << "Bad file format: Variables of factor " << f << " are missing or invalid." << std::endl;
+            return 1;
          }
       }
    }
 
-
-
    // add functions to gm
-   if(myuaifile.eof()) {
-      std::cerr << "Bad file format: Function tables are missing." << std::endl;
-      return 1;
-   } else {
+   {
       for(IndexType f=0; f<numFactors; ++f){
          // read number of values
-         unsigned long numFunctionValues;
-         myuaifile >> numFunctionValues;
-        
+         size_t numFunctionValues;
+         if(!read(myuaifile, numFunctionValues)) {
+            std::cerr << "Bad file format: Function tables are missing." << std::endl;
+            return 1;
+         }
+
          // get shape of function
          std::vector<LabelType> currentShape;
          currentShape.reserve(factors[f].size()); 
@@ -150,21 +147,22 @@ int main(int argc, const char* argv[] ) {
          marray::Marray<ValueType> currentFunctionValues(currentShape.begin(), currentShape.end());
          
          // check for matching size
-         OPENGM_ASSERT_OP(currentFunctionValues.size(), ==, numFunctionValues);  
-         
-         // set function values
-         if(myuaifile.eof()) {
-            std::cerr << "Bad file format: Function values are missing." << std::endl;
+         if(currentFunctionValues.size() != numFunctionValues) {
+            std::cerr << "Bad file format: Function table has the wrong size." << std::endl;
             return 1;
-         } else {
-            std::vector<LabelType> index;
-            for(size_t i=0; i<currentFunctionValues.size(); ++i){
-               ValueType val;
-               myuaifile >> val;
-               logTransform(val);
-               ind2sub(index, i, currentShape);
-               currentFunctionValues(index.begin()) =val;
+         }
+
+         // set function values
+         std::vector<LabelType> index;
+         for(size_t i=0; i<currentFunctionValues.size(); ++i){
+            ValueType val;
+            if(!read(myuaifile, val)) {
+               std::cerr << "Bad file format: Function values are missing." << std::endl;
+               return 1;
             }
+            logTransform(val);
+            ind2sub(index, i, currentShape);
+            currentFunctionValues(index.begin()) =val;
          }
 
          // find variable permutation
@@ -234,6 +232,25 @@ void removeSpaces(std::string& input) {
    }
 }
 
+bool read(std::istream& stream, size_t& value) {
+   std::string word;
+   stream >> word;
+   if(word.empty() || word[0] < '0' || word[0] > '9') {
+      return false;
+   }
+   std::istringstream converter(word);
+   converter >> value;
+   return !converter.fail() && converter.peek() == std::istringstream::traits_type::eof();
+}
+
+bool read(std::istream& stream, double& value) {
+   std::string word;
+   stream >> word;
+   std::istringstream converter(word);
+   converter >> value;
+   return !converter.fail() && converter.peek() == std::istringstream::traits_type::eof() && value >= 0;
+}
+
 template <class T>
 void logTransform(T& input) {
    OPENGM_ASSERT(input >= 0);
@@ -283,6 +300,9 @@ template <class T, class U, class V>
 void ind2sub(T& sub, const U ind, const V& sizes) {
    sub.clear();
    sub.reserve(sizes.size());
+   if(sizes.size() == 0) {
+      return;
+   }
    U remainingInd = ind;
    for(size_t i = 0; i < sizes.size() - 1; i++) {
       size_t numSubentries = 1;
-- 
2.43.0


From daaab37986f7f0283d07e0d6af8d822c81dc67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 092/162] fix: opengm2uai wrote only six significant digits of
 a value

---
 src/converter/opengm2uai.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/converter/opengm2uai.cxx b/src/converter/opengm2uai.cxx
index 46ae67b..0f97c21 100644
--- a/src/converter/opengm2uai.cxx
+++ b/src/converter/opengm2uai.cxx
@@ -2,6 +2,8 @@
 #include <vector>
 #include <iostream>
 #include <fstream>
+#include <cmath>
+#include <limits>
 
 
 #include <opengm/graphicalmodel/graphicalmodel.hxx>
@@ -18,6 +20,10 @@
 
 int
 main(int argc, const char* argv[] ) {
+   if(argc != 3) {
+      std::cerr << "Two input arguments required" << std::endl;
+      return 1;
+   }
 
    typedef double ValueType;
    typedef size_t IndexType;
@@ -52,6 +58,7 @@ main(int argc, const char* argv[] ) {
    opengm::hdf5::load(gm, opengmfile,"gm");
    std::ofstream myuaifile;
    myuaifile.open(uaifile.c_str());
+   myuaifile.precision(std::numeric_limits<ValueType>::digits10 + 2);
    myuaifile << "MARKOV" << std::endl;
    myuaifile << gm.numberOfVariables() << std::endl;
    for(IndexType var=0; var<gm.numberOfVariables(); ++var){
-- 
2.43.0


From d7726e538299b80aa3f45e858681cebf8d54c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:13 +0000
Subject: [PATCH 093/162] fix: opengm2uai gave up on factors of more than two
 variables and left an incomplete file

---
 src/converter/opengm2uai.cxx | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/converter/opengm2uai.cxx b/src/converter/opengm2uai.cxx
index 0f97c21..72df9d5 100644
--- a/src/converter/opengm2uai.cxx
+++ b/src/converter/opengm2uai.cxx
@@ -73,35 +73,21 @@ main(int argc, const char* argv[] ) {
       } 
       myuaifile << std::endl;
    }
-   LabelType l[3] = {0,0,0};
    for(IndexType f=0; f<gm.numberOfFactors(); ++f){
       myuaifile << std::endl;
       myuaifile << gm[f].size() << std::endl;
-      if(gm[f].numberOfVariables()==0){
-         l[0]=0;
-         myuaifile << std::exp(-gm[f](l)) << std::endl;
-      }
-      else if(gm[f].numberOfVariables()==1){
-         for(l[0]=0; l[0]<gm[f].numberOfLabels(0); ++l[0]){
-            myuaifile << std::exp(-gm[f](l)) << " "; 
-         } 
-         myuaifile << std::endl;
-
-      } 
-      else if(gm[f].numberOfVariables()==2){
-         for(l[0]=0; l[0]<gm[f].numberOfLabels(0); ++l[0]){
-            for(l[1]=0; l[1]<gm[f].numberOfLabels(1); ++l[1]){
-               myuaifile << std::exp(-gm[f](l)) << " "; 
+      // the label of the last variable changes fastest
+      std::vector<LabelType> l(gm[f].numberOfVariables() + 1, 0);
+      for(size_t i=0; i<gm[f].size(); ++i) {
+         myuaifile << std::exp(-gm[f](l.begin())) << " ";
+         for(size_t j=gm[f].numberOfVariables(); j-- > 0; ) {
+            if(++l[j] < gm[f].numberOfLabels(j)) {
+               break;
             }
-            myuaifile << std::endl;
+            l[j] = 0;
          }
       }
-      else{
-         std::cout << "Factors of order higher than 2 are so far not supported !" <<std::endl;
-         myuaifile.close();
-         return 1;
-      }
-
+      myuaifile << std::endl;
    }
    myuaifile.close();
    return 0;
-- 
2.43.0


From 99c3c38f8fa17b2fed3cd8f8df5281ec8a22d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 094/162] fix: Gibbs did not count its initial labeling as the
 best one so far and kept the best value over a reset

---
 include/opengm/inference/gibbs.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 959df70..bc1ad6a 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -189,10 +189,9 @@ Gibbs<GM, ACC>::Gibbs
    gm_(gm), 
    movemaker_(gm), 
    currentBestState_(gm.numberOfVariables()),
-   currentBestValue_()
+   currentBestValue_(movemaker_.value())
 {
    inInference_=false;
-   ACC::ineutral(currentBestValue_);
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -221,6 +220,7 @@ Gibbs<GM, ACC>::reset() {
    else {
      movemaker_.reset();
      std::fill(currentBestState_.begin(), currentBestState_.end(), 0);
+     currentBestValue_ = movemaker_.value();
    }
 }
 
-- 
2.43.0


From 42d0d466c0aa1cc2f3b8dc6667e5558496caa9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 095/162] fix: the cyclic proposal of Gibbs proposed changes of
 one variable only

---
 include/opengm/inference/gibbs.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index bc1ad6a..bdc44e1 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -284,7 +284,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
             variableIndex = randomVariable();
          }
          else if(this->parameter_.variableProposal_ == Parameter::CYCLIC) {
-            variableIndex < gm_.numberOfVariables() - 1 ? ++variableIndex : variableIndex = 0;
+            variableIndex = iteration % gm_.numberOfVariables();
          }
 
          // draw label
@@ -334,7 +334,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
             variableIndex = randomVariable();
          }
          else if(this->parameter_.variableProposal_ == Parameter::CYCLIC) {
-            variableIndex < gm_.numberOfVariables() - 1 ? ++variableIndex : variableIndex = 0;
+            variableIndex = iteration % gm_.numberOfVariables();
          }
 
          // draw label
-- 
2.43.0


From e79813c5734a29b32fc99bf09715085788cdd991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 096/162] fix: Gibbs counted a step that proposed a change
 twice

---
 include/opengm/inference/gibbs.hxx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index bdc44e1..0ac1b76 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -322,7 +322,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-            ++iteration;
          }
       }
    }
@@ -374,7 +373,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-            ++iteration;
          }
       }
    }
-- 
2.43.0


From faaf4c67110539c846170dedf0479a44119bdf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 097/162] fix: Gibbs ignored a visitor's request to stop and
 did not show it the steps that kept the label

---
 include/opengm/inference/gibbs.hxx | 47 ++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 0ac1b76..c782b31 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -155,6 +155,8 @@ public:
    ValueType markovValue() const;
    LabelType currentBestState(const size_t) const;
    ValueType currentBestValue() const;
+   bool burningIn() const;        // is the current step a burn-in step?
+   bool lastMoveAccepted() const; // was the last proposal accepted?
 
 private:
    ValueType cosTemp(const ValueType arg,const ValueType periode,const ValueType min,const ValueType max)const{
@@ -176,6 +178,8 @@ private:
    std::vector<size_t> currentBestState_;
    ValueType currentBestValue_;
    bool inInference_;
+   bool burningIn_;
+   bool lastMoveAccepted_;
 };
 
 template<class GM, class ACC>
@@ -192,6 +196,8 @@ Gibbs<GM, ACC>::Gibbs
    currentBestValue_(movemaker_.value())
 {
    inInference_=false;
+   burningIn_=false;
+   lastMoveAccepted_=false;
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -292,7 +298,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
+         lastMoveAccepted_ = true;
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -304,8 +311,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
-               //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
                const ProbabilityType pFlip =
@@ -314,15 +319,15 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
-                  //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
-                  visitor(*this);
-                 // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
+                  lastMoveAccepted_ = false;
                }
             }
          }
+         if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+            break;
+         }
       }
    }
    else {
@@ -341,7 +346,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
+         lastMoveAccepted_ = true;
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -353,8 +359,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
-               //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
                const ProbabilityType pFlip =
@@ -364,16 +368,15 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
-                  //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
-                  //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
-                  visitor(*this);
-                  //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
+                  lastMoveAccepted_ = false;
                }
             }
          }
+         if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+            break;
+         }
       }
    }
    //visitor.end(*this, currentBestValue_, currentBestValue_);
@@ -441,6 +444,20 @@ Gibbs<GM, ACC>::currentBestValue() const
    return currentBestValue_;
 }
 
+template<class GM, class ACC>
+inline bool
+Gibbs<GM, ACC>::burningIn() const
+{
+   return burningIn_;
+}
+
+template<class GM, class ACC>
+inline bool
+Gibbs<GM, ACC>::lastMoveAccepted() const
+{
+   return lastMoveAccepted_;
+}
+
 template<class GIBBS>
 inline
 GibbsMarginalVisitor<GIBBS>::GibbsMarginalVisitor()
-- 
2.43.0


From e8285c9974253c46e62e56b5954b5256aa93a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 098/162] fix: GibbsMarginalVisitor could not be passed to
 Gibbs::infer

---
 include/opengm/inference/gibbs.hxx | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index c782b31..f5c8194 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -69,11 +69,11 @@ public:
    template<class VariableIndexIterator>
       size_t addMarginal(VariableIndexIterator, VariableIndexIterator);
    size_t addMarginal(const size_t);
-   void operator()(const GibbsType&, const ValueType, const ValueType, const size_t, const bool, const bool);
+   size_t operator()(const GibbsType&);
 
    // query
-   void begin(const GibbsType&, const ValueType, const ValueType) const {}
-   void end(const GibbsType&, const ValueType, const ValueType) const {}
+   void begin(const GibbsType&) const {}
+   void end(const GibbsType&) const {}
    size_t numberOfSamples() const;
    size_t numberOfAcceptedSamples() const;
    size_t numberOfRejectedSamples() const;
@@ -492,18 +492,13 @@ GibbsMarginalVisitor<GIBBS>::assign(
 }
 
 template<class GIBBS>
-inline void
+inline size_t
 GibbsMarginalVisitor<GIBBS>::operator()(
-   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs, 
-   const typename GibbsMarginalVisitor<GIBBS>::ValueType currentValue, 
-   const typename GibbsMarginalVisitor<GIBBS>::ValueType bestValue, 
-   const size_t iteration, 
-   const bool accepted, 
-   const bool burningIn
+   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs
 ) {
-   if(!burningIn) {
+   if(!gibbs.burningIn()) {
       ++numberOfSamples_;
-      if(accepted) {
+      if(gibbs.lastMoveAccepted()) {
          ++numberOfAcceptedSamples_;
       }
       else {
@@ -516,6 +511,7 @@ GibbsMarginalVisitor<GIBBS>::operator()(
          ++marginals_[j](stateCache_.begin());
       }
    }
+   return visitors::VisitorReturnFlag::ContinueInf;
 }
 
 template<class GIBBS>
-- 
2.43.0


From acda1ee639e62c629de104f68820c736656ab2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 099/162] fix: swendsenwang.hxx included a header that does not
 exist

---
 include/opengm/inference/swendsenwang.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/swendsenwang.hxx b/include/opengm/inference/swendsenwang.hxx
index e981cb2..714e69f 100644
--- a/include/opengm/inference/swendsenwang.hxx
+++ b/include/opengm/inference/swendsenwang.hxx
@@ -19,7 +19,8 @@
 #include "opengm/datastructures/randomaccessset.hxx"
 #include "opengm/datastructures/partition.hxx"
 #include "opengm/inference/movemaker.hxx"
-#include "opengm/inference/visitors/visitor.hxx"
+#include "opengm/inference/inference.hxx"
+#include "opengm/inference/visitors/visitors.hxx"
 #include "opengm/functions/view_convert_function.hxx"
 
 namespace opengm {
@@ -121,7 +122,6 @@ public:
    typedef double ProbabilityType;
    typedef SwendsenWangEmptyVisitor<SwendsenWang<GM, ACC> > EmptyVisitorType;
    typedef SwendsenWangVerboseVisitor<SwendsenWang<GM, ACC> > VerboseVisitorType;
-   typedef TimingVisitor<SwendsenWang<GM, ACC> > TimingVisitorType;
 
    struct Parameter
    {
-- 
2.43.0


From 7f9c2eb990fecef3e3e2a0a93ba74f06d96af63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 100/162] fix: SwendsenWang paired the value of its initial
 state with the all-zero labeling

---
 include/opengm/inference/swendsenwang.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/swendsenwang.hxx b/include/opengm/inference/swendsenwang.hxx
index 714e69f..a59e907 100644
--- a/include/opengm/inference/swendsenwang.hxx
+++ b/include/opengm/inference/swendsenwang.hxx
@@ -191,6 +191,7 @@ SwendsenWang<GM, ACC>::SwendsenWang
    if(parameter_.initialState_.size() != 0 && parameter_.initialState_.size() != gm.numberOfVariables()) {
       throw RuntimeError("The size of the initial state does not match the number of variables.");
    }
+   std::copy(movemaker_.stateBegin(), movemaker_.stateEnd(), currentBestState_.begin());
    gm.variableAdjacencyList(variableAdjacency_);
    for(size_t j=0; j<gm_.numberOfVariables(); ++j) {
       edgeProbabilities_[j].resize(variableAdjacency_[j].size());
-- 
2.43.0


From a6e5f777084a330c729b057808868ad1f9ef15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 101/162] fix: ShapeWalkerSwitchedOrder accessed memory out of
 bounds in zero dimensions

---
 include/opengm/utilities/indexing.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index ca5f071..207dd39 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -162,7 +162,7 @@ namespace opengm {
       coordinateTuple_(dimension, 0),
       dimension_(dimension) { }
       ShapeWalkerSwitchedOrder & operator++() {
-         for(size_t d = dimension_-1; true; --d) {
+         for(size_t d = dimension_-1; dimension_ != 0; --d) {
             if( size_t(coordinateTuple_[d]) != (size_t(shapeBegin_[d]) - size_t(1)) ) {
                ++coordinateTuple_[d];
                OPENGM_ASSERT(coordinateTuple_[d]<shapeBegin_[d]);
-- 
2.43.0


From 2dcd15c6748de64f99ef7e5fdfc4fa2eff110183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 102/162] fix: SAT derived privately from Inference, so that no
 timing visitor could be used with it

---
 include/opengm/inference/sat.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/sat.hxx b/include/opengm/inference/sat.hxx
index 8515aaa..e392a48 100644
--- a/include/opengm/inference/sat.hxx
+++ b/include/opengm/inference/sat.hxx
@@ -21,7 +21,7 @@ namespace opengm {
    ///
    /// \ingroup inference
    template<class GM>
-   class SAT : Inference<GM, opengm::Or> {
+   class SAT : public Inference<GM, opengm::Or> {
    public:
       typedef opengm::Or AccumulationType;
       typedef GM GraphicalModelType;
-- 
2.43.0


From 6600b4ea594d615b2c83f37eaf8cdebde7b7ab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 103/162] fix: SAT::value read out of bounds before inference
 (also when called by a visitor's begin)

---
 include/opengm/inference/sat.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/sat.hxx b/include/opengm/inference/sat.hxx
index e392a48..a28bb32 100644
--- a/include/opengm/inference/sat.hxx
+++ b/include/opengm/inference/sat.hxx
@@ -67,7 +67,8 @@ namespace opengm {
       const GraphicalModelType& gm,
       const Parameter& para
    )
-   :  gm_(gm)
+   :  gm_(gm),
+      component_(gm.numberOfVariables() * 2, 0)
    {
       if(!NO_DEBUG) {
          OPENGM_ASSERT(gm_.factorOrder() <= 2);
-- 
2.43.0


From 627280190e0bf435e33baf4c89578f1b25e5ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 104/162] fix: QPBO::arg did not override Inference::arg, so
 that value() never evaluated the solution

---
 include/opengm/inference/qpbo.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index b31571c..1e04bba 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -49,7 +49,7 @@ public:
    InferenceTermination infer();
    template<class VISITOR>
       InferenceTermination infer(VISITOR &);
-   InferenceTermination arg(std::vector<LabelType>&, const size_t& = 1) const;
+   InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const;
    double partialOptimality(std::vector<bool>&) const;
 
 private:
@@ -144,7 +144,7 @@ inline InferenceTermination
 QPBO<GM,MIN_ST_CUT>::arg
 (
    std::vector<LabelType>& arg,
-   const size_t& n
+   const size_t n
    ) const
 {
    if(n > 1) {
-- 
2.43.0


From fda526871e453327995f2ec019eedfe3bac9e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 105/162] fix: QPBO::partialOptimality did not compile

---
 include/opengm/inference/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 1e04bba..7727446 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -180,7 +180,7 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
       } else
          optVec[j] = false;
 
-   return opt/gm_.numerOfVariables();
+   return opt/gm_.numberOfVariables();
 }
 
 template<class GM,class MIN_ST_CUT>
-- 
2.43.0


From df32b534fda8fe39aa4d5921bde9a90d9df55074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 106/162] fix: QPBO::arg read out of bounds before inference

---
 include/opengm/inference/qpbo.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 7727446..f0d1690 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -80,6 +80,7 @@ QPBO<GM,MIN_ST_CUT>::QPBO
    typename QPBO<GM,MIN_ST_CUT>::Parameter
 )
 :  gm_(gm),
+   stateBool_(2*gm_.numberOfVariables()+2, false),
    numVars_(gm_.numberOfVariables()),
    minStCut_(2*gm_.numberOfVariables()+2, 6*gm_.numberOfVariables()) /// now many edges?
 {
-- 
2.43.0


From 3767e9f536e54a2f324c1c56f94868f141e3b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 107/162] fix: QPBO added edges of negative capacity for
 pairwise factors with negative values

---
 include/opengm/inference/qpbo.hxx | 40 +++++++++++++------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index f0d1690..2501dbd 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -194,17 +194,26 @@ QPBO<GM,MIN_ST_CUT>::addEdgeCapacity(size_t v, size_t w, ValueType val)
 template<class GM,class MIN_ST_CUT>
 void
 QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(const FactorType& factor)
+{
+   size_t c[]={0};
+   const ValueType value0 = factor(c);
+   c[0]=1;
+   const ValueType value1 = factor(c);
+   addUnaryFactorType(factor.variableIndex(0), value0, value1);
+}
+
+template<class GM,class MIN_ST_CUT>
+void inline
+QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(size_t var, ValueType value0, ValueType value1)
 {
    // indices of literal nodes in graph_
-   size_t x_i  = factor.variableIndex(0);
+   size_t x_i  = var;
    size_t nx_i = neg(x_i);
 
    // conversion to normal form on-the-fly: c_[n]x_i are the new
    // values of the unary factor.
-   size_t c[]={0};
-   ValueType c_nx_i = factor(c);
-   c[0]=1;
-   ValueType c_x_i  = factor(c);
+   ValueType c_nx_i = value0;
+   ValueType c_x_i  = value1;
 
    // has to be zero
    ValueType delta = std::min(c_nx_i, c_x_i);
@@ -305,24 +314,9 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
       addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
    }
 
-   // for every non-zero c_[n]x_{i,j} add two edges to the flow network
-
-   if (delta_c_nx_j != 0) {
-      addEdgeCapacity(x_j,    sink_, 0.5*delta_c_nx_j);
-      addEdgeCapacity(source_, nx_j, 0.5*delta_c_nx_j);
-   }
-   if (delta_c_x_j != 0) {
-      addEdgeCapacity(nx_j,   sink_, 0.5*delta_c_x_j);
-      addEdgeCapacity(source_,  x_j, 0.5*delta_c_x_j);
-   }
-   if (delta_c_nx_i != 0) {
-      addEdgeCapacity(x_i,    sink_, 0.5*delta_c_nx_i);
-      addEdgeCapacity(source_, nx_i, 0.5*delta_c_nx_i);
-   }
-   if (delta_c_x_i != 0) {
-      addEdgeCapacity(nx_i,   sink_, 0.5*delta_c_x_i);
-      addEdgeCapacity(source_,  x_i, 0.5*delta_c_x_i);
-   }
+   // the changes of the unary factors can be negative
+   addUnaryFactorType(x_j, delta_c_nx_j, delta_c_x_j);
+   addUnaryFactorType(x_i, delta_c_nx_i, delta_c_x_i);
 }
 
 } // namespace opengm
-- 
2.43.0


From b13057a4f969268f4dd76eacada079424b988052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 108/162] fix: QPBO truncated halved capacities for integral
 value types (the factor 1/2 is immaterial to the cut)

---
 include/opengm/inference/qpbo.hxx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 2501dbd..c13d676 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -221,11 +221,11 @@ QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(size_t var, ValueType value0, ValueType
    c_x_i      -= delta;
    constTerm_ += delta;
 
-   addEdgeCapacity(x_i,    sink_, 0.5*c_nx_i);
-   addEdgeCapacity(source_, nx_i, 0.5*c_nx_i);
+   addEdgeCapacity(x_i,    sink_, c_nx_i);
+   addEdgeCapacity(source_, nx_i, c_nx_i);
 
-   addEdgeCapacity(nx_i,   sink_, 0.5*c_x_i);
-   addEdgeCapacity(source_,  x_i, 0.5*c_x_i);
+   addEdgeCapacity(nx_i,   sink_, c_x_i);
+   addEdgeCapacity(source_,  x_i, c_x_i);
 }
 
 template<class GM,class MIN_ST_CUT>
@@ -298,20 +298,20 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
    // for every non-zero c_[n]x_i_[n]x_j add two edges to the flow network
 
    if (c_nx_i_nx_j != 0) {
-      addEdgeCapacity(x_i,  nx_j, 0.5*c_nx_i_nx_j);
-      addEdgeCapacity(x_j,  nx_i, 0.5*c_nx_i_nx_j);
+      addEdgeCapacity(x_i,  nx_j, c_nx_i_nx_j);
+      addEdgeCapacity(x_j,  nx_i, c_nx_i_nx_j);
    }
    if (c_nx_i_x_j != 0) {
-      addEdgeCapacity(x_i,   x_j, 0.5*c_nx_i_x_j);
-      addEdgeCapacity(nx_j, nx_i, 0.5*c_nx_i_x_j);
+      addEdgeCapacity(x_i,   x_j, c_nx_i_x_j);
+      addEdgeCapacity(nx_j, nx_i, c_nx_i_x_j);
    }
    if (c_x_i_nx_j != 0) {
-      addEdgeCapacity(nx_i, nx_j, 0.5*c_x_i_nx_j);
-      addEdgeCapacity(x_j,   x_i, 0.5*c_x_i_nx_j);
+      addEdgeCapacity(nx_i, nx_j, c_x_i_nx_j);
+      addEdgeCapacity(x_j,   x_i, c_x_i_nx_j);
    }
    if (c_x_i_x_j != 0) {
-      addEdgeCapacity(nx_i,  x_j, 0.5*c_x_i_x_j);
-      addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
+      addEdgeCapacity(nx_i,  x_j, c_x_i_x_j);
+      addEdgeCapacity(nx_j,  x_i, c_x_i_x_j);
    }
 
    // the changes of the unary factors can be negative
-- 
2.43.0


From 2f5830b7701385b0f3cc1260ac3e8ccba0bff795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 109/162] fix: QPBO silently ignored all but two labels of a
 variable

---
 include/opengm/inference/qpbo.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index c13d676..4e53a98 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -88,6 +88,12 @@ QPBO<GM,MIN_ST_CUT>::QPBO
    source_ = 2*numVars_;
    sink_   = 2*numVars_ + 1;
 
+   for(size_t i=0; i<numVars_; ++i) {
+      if(gm_.numberOfLabels(i) != 2) {
+         throw std::runtime_error("This implementation of the QPBO optimizer supports only binary variables.");
+      }
+   }
+
    // add pairwise factors
    for(size_t j=0; j<gm_.numberOfFactors(); ++j) {
       switch (gm_[j].numberOfVariables()) {
-- 
2.43.0


From 92d54963462fb2f7f7283c490355e185372b8953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 110/162] fix: PartitionMove considered only one of several
 factors over the same variables

---
 include/opengm/inference/partition-move.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/partition-move.hxx b/include/opengm/inference/partition-move.hxx
index b508356..492c97f 100644
--- a/include/opengm/inference/partition-move.hxx
+++ b/include/opengm/inference/partition-move.hxx
@@ -171,12 +171,15 @@ PartitionMove<GM, ACC>::PartitionMove
       else if(gm_[f].numberOfVariables()==2) {
          LabelType cc0[] = {0,0};
          LabelType cc1[] = {0,1};
-         edgeWeight_[numberOfInternalEdges] += gm_[f](cc1) - gm_[f](cc0); 
          constant_ += gm_[f](cc0);
          IndexType u = gm_[f].variableIndex(0);
          IndexType v = gm_[f].variableIndex(1);
-         neighbours_[u][v] = numberOfInternalEdges;
-         neighbours_[v][u] = numberOfInternalEdges;
+         // several factors can connect the same variables
+         const typename EdgeMapType::const_iterator edge = neighbours_[u].find(v);
+         const LPIndexType e = edge == neighbours_[u].end() ? numberOfInternalEdges : (*edge).second;
+         edgeWeight_[e] += gm_[f](cc1) - gm_[f](cc0); 
+         neighbours_[u][v] = e;
+         neighbours_[v][u] = e;
          ++numberOfInternalEdges;
       }    
       else{
-- 
2.43.0


From d0c97bd1be9a2a4c872a24446deaa29ba7c6a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 111/162] fix: GreedyGremlin read uninitialized memory for
 disconnected models

---
 include/opengm/inference/greedygremlin.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index a282bcd..d70d40f 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -135,7 +135,12 @@ namespace opengm {
       visitor.begin(*this);    
       const ValueType neutral = GM::OperatorType::template neutral<ValueType>();
       while(waitingListFirst<waitingList.size()){
-         OPENGM_ASSERT(waitingListFirst<=waitingListLast);
+         if(waitingListFirst>waitingListLast){
+            // continue with the next connected component
+            const IndexType next = std::find(nodeColor.begin(), nodeColor.end(), false) - nodeColor.begin();
+            nodeColor[next] = true;
+            waitingList[++waitingListLast] = next;
+         }
          IndexType var = waitingList[waitingListFirst++];
          std::vector<ValueType> vals(gm_.numberOfLabels(var),neutral);
          //for all neigboured factors
-- 
2.43.0


From 2a52ac79bcaff352d10bbb51a3d53d201f3e3cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 112/162] fix: GreedyGremlin used factors of variables that
 were not fixed yet

---
 include/opengm/inference/greedygremlin.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index d70d40f..f0844d3 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -126,7 +126,8 @@ namespace opengm {
    template<class VisitorType>
    InferenceTermination GreedyGremlin<GM,ACC>::infer(VisitorType& visitor)
    {
-      std::vector<bool>       nodeColor(gm_.numberOfVariables(),false);
+      std::vector<bool>       nodeColor(gm_.numberOfVariables(),false); // in the waiting list or fixed
+      std::vector<bool>       fixed(gm_.numberOfVariables(),false);
       std::vector<IndexType>  waitingList(gm_.numberOfVariables());
       waitingList[0] = 0;
       nodeColor[0]   = true;
@@ -142,12 +143,13 @@ namespace opengm {
             waitingList[++waitingListLast] = next;
          }
          IndexType var = waitingList[waitingListFirst++];
+         fixed[var] = true;
          std::vector<ValueType> vals(gm_.numberOfLabels(var),neutral);
          //for all neigboured factors
          for(typename GM::ConstFactorIterator fit=gm_.factorsOfVariableBegin(var); fit!=gm_.factorsOfVariableEnd(var); ++fit){
             bool useIt = true;
             for(typename GM::ConstVariableIterator vit=gm_.variablesOfFactorBegin(*fit); vit!=gm_.variablesOfFactorEnd(*fit); ++vit){
-               if(nodeColor[*vit]==false){
+               if(fixed[*vit]==false){
                   useIt = false;
                   break;
                }
-- 
2.43.0


From 8462eb725408ba282650eb2db32717d78e3d7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 113/162] fix: GreedyGremlin::reset did nothing

---
 include/opengm/inference/greedygremlin.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index f0844d3..41a007c 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -109,7 +109,7 @@ namespace opengm {
    void
    GreedyGremlin<GM,ACC>::reset()
    {
-      ///todo
+      std::fill(conf_.begin(), conf_.end(), 0);
    }
 
    template <class GM, class ACC>
-- 
2.43.0


From 5e1c02933d0c1d662e4db7b8e53ef7e8ca85d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 114/162] fix: FusionMover::fuse reported the better value with
 the first labeling if the solver found nothing

---
 include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
index 0d0f10d..3ed302e 100644
--- a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
+++ b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
@@ -918,6 +918,7 @@ FusionMover<GM, ACC>::fuse(
     }
     else{
        valueResult_ = valueBest_;
+       std::copy(argBest_->begin(), argBest_->end(), argResult_->begin());
     }
     modelProxy.freeModel(); 
     //std::cout<<"done!"<<std::endl;
-- 
2.43.0


From a276175a7b656dee9489f8632570a4883b8cab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 115/162] fix: FusionMover::fuseFixQpbo swapped the labels of
 factors with several variables

---
 .../opengm/inference/auxiliary/fusion_move/fusion_mover.hxx   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
index 3ed302e..b1679c6 100644
--- a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
+++ b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
@@ -1072,11 +1072,11 @@ FusionMover<GM, ACC>::fuseFixQpbo(
                     //if (    assignment%2 ==  (std::pow(2,i))%2  )
                     if (assignment & (1 << i))
                     {
-                        cliqueLabels[i] = 0;
+                        cliqueLabels[i] = 1;
                     }
                     else
                     {
-                        cliqueLabels[i] = 1;
+                        cliqueLabels[i] = 0;
                     }
                 }
                 ValueType energy = subGm[f](cliqueLabels.begin());
-- 
2.43.0


From 6607220ff502add1a5d4059151e67c6bfa217389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 116/162] fix: UpDownGen proposed labels out of range for
 variables with one label and compared only the first variable

---
 include/opengm/inference/fusion_based_inf.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 3ef0c3a..6fd5456 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -180,7 +180,13 @@ namespace proposal_gen{
                 const LabelType ol = argBuffer_[vi];   
                 const LabelType cl = current[vi];   
                 
-                std::copy(current.begin(), current.end(), argBuffer_.begin());
+                argBuffer_[vi] = cl;
+
+                // nothing to propose
+                if(numL < 2){
+                    proposal[vi] = cl;
+                    continue;
+                }
 
                 // flip direction?
                 if(ol == cl){
-- 
2.43.0


From f2321e8f253d511358a3dfe9c417879d0c52f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 117/162] fix: SelfFusion lost the labelings of the solver: the
 first was overwritten, the last never fused

---
 include/opengm/inference/self_fusion.hxx | 61 ++++++++++--------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9e7e9ea..5c6fbff 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -91,6 +91,8 @@ struct FusionVisitor{
     void end(
         INF  & inf
     ){
+        // the last labeling of the solver may not have been fused yet
+        this->fuseArg(inf);
     }
 
     size_t operator()(
@@ -104,36 +106,19 @@ struct FusionVisitor{
 
 
 
-    size_t fuseVisit(INF & inference){
-
-        const typename SelfFusionType::Parameter & param = selfFusion_.parameter();
+    // fuse the best labeling with the one of the solver
+    bool fuseArg(INF & inference){
 
-        ValueType oldValue = value_;
+            const typename SelfFusionType::Parameter & param = selfFusion_.parameter();
 
-        if(iteration_==0 ){         
-            inference.arg(argBest_);
-            ValueType value = inference.value();
-            if(AccumulationType::bop(value,value_)){
-               std::copy(argOut_.begin(),argOut_.end(),argBest_.begin());
-               value_ = value;
-            }
-            returnFlag_ =   selfFusionVisitor_(selfFusion_);
-            selfFusionVisitor_.log("infValue",value);
-        }
-        else if(iteration_%fuseNth_==0){
-          
-            inference.arg(argFromInf_);
-
-            const ValueType infValue = inference.value();
             bound_   = inference.bound();
-            lastInfValue_=infValue;
-            IndexType nLocalVar=0;
-            for(IndexType vi=0;vi<gm_.numberOfVariables();++vi){
-                if(argBest_[vi]!=argFromInf_[vi]){
-                    ++nLocalVar;
-                }
+            if(inference.arg(argFromInf_)!=NORMAL || argFromInf_.size()!=gm_.numberOfVariables()){
+                argFromInf_.resize(gm_.numberOfVariables());
+                return false;
             }
 
+            const ValueType infValue = gm_.evaluate(argFromInf_);
+            lastInfValue_=infValue;
 
             // setup which to labels should be fused and declare 
             // output label vector
@@ -210,17 +195,20 @@ struct FusionVisitor{
 
                 // write fusion result into best arg
                 std::copy(argOut_.begin(),argOut_.end(),argBest_.begin());
+            }
+            return true;
+    }
 
-                //std::cout<<"fusionValue "<<value_<<" infValue "<<infValue<<"\n";
+    size_t fuseVisit(INF & inference){
 
-                returnFlag_ =  selfFusionVisitor_(selfFusion_);
-                                selfFusionVisitor_.log("infValue",infValue);
-            } 
+        const typename SelfFusionType::Parameter & param = selfFusion_.parameter();
 
-            else{
-               returnFlag_ =   selfFusionVisitor_(selfFusion_);
-               selfFusionVisitor_.log("infValue",value_);
-            }
+        const ValueType oldValue = value_;
+
+        if(iteration_%fuseNth_==0){
+            const bool hasArg = this->fuseArg(inference);
+            returnFlag_ =   selfFusionVisitor_(selfFusion_);
+            selfFusionVisitor_.log("infValue",hasArg ? lastInfValue_ : value_);
         }
         ++iteration_;
 
@@ -413,7 +401,8 @@ SelfFusion<INFERENCE>::SelfFusion
    value_(),
    maxOrder_(gm.factorOrder())
 {
-    AccumulationType::neutral(value_);
+    AccumulationType::ineutral(bound_);
+    value_ = gm_.evaluate(argBest_);
 }
       
 
@@ -424,7 +413,8 @@ SelfFusion<INFERENCE>::setStartingPoint
 (
    typename std::vector<typename SelfFusion<INFERENCE>::LabelType>::const_iterator begin
 ) {
-
+    std::copy(begin, begin + gm_.numberOfVariables(), argBest_.begin());
+    value_ = gm_.evaluate(argBest_);
 }
    
 template<class INFERENCE>
@@ -459,7 +449,6 @@ InferenceTermination SelfFusion<INFERENCE>::infer
 )
 {
    AccumulationType::ineutral(bound_);
-   AccumulationType::neutral(value_);
 
    visitor.begin(*this);
    visitor.addLog("infValue");
-- 
2.43.0


From 1ed3879fb5d5c6435a51a03ac0a77afa0de628b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 118/162] fix: SelfFusion::arg answered requests for further
 solutions with the best one

---
 include/opengm/inference/self_fusion.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 5c6fbff..13abb30 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -469,6 +469,9 @@ SelfFusion<INFERENCE>::arg
       const size_t N
 ) const
 {
+    if(N!=1){
+        return UNKNOWN;
+    }
     x.resize(gm_.numberOfVariables());
     for(IndexType vi=0;vi<gm_.numberOfVariables();++vi){
         x[vi]=argBest_[vi];
-- 
2.43.0


From 012d926b58624291b9cdb2b62e5cd864f3bcc863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 119/162] fix: proposal generators proposed labels out of range
 and used unconstructed random generators

---
 include/opengm/inference/fusion_based_inf.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 6fd5456..aefe502 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -380,7 +380,7 @@ namespace proposal_gen{
             for (IndexType vi = 0; vi < gm_.numberOfVariables(); ++vi){
                 // draw label
                 opengm::RandomUniform<size_t> randomLabel(0,3,currentStep_+vi);
-                proposal[vi] = std::min(randomLabel(),size_t(1));
+                proposal[vi] = std::min(randomLabel(), std::min(size_t(gm_.numberOfLabels(vi)-1), size_t(1)));
             }
             ++currentStep_;
         }
@@ -600,7 +600,7 @@ namespace proposal_gen{
                     int j2 = std::min(w,std::max(0,i-radius+k));
                     val += kernel_[k] * temp[ind(i, j2)];
                  }
-                 bluredLabel_[ind(i,j)] = std::min(double(gm_.numberOfLabels(ind(i,j))),(std::max(0.0,val)));
+                 bluredLabel_[ind(i,j)] = std::min(double(gm_.numberOfLabels(ind(i,j))-1),(std::max(0.0,val)));
               }
            } 
         }
@@ -622,7 +622,7 @@ namespace proposal_gen{
               proposal.resize(gm_.numberOfVariables(),0.0);
               opengm::RandomUniform<double> randomLabel(-param_.sigma_*1.5, param_.sigma_*1.5,currentStep_);
               for(size_t i=0; i<proposal.size();++i){
-                 proposal[i] = std::min(gm_.numberOfLabels(i), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
+                 proposal[i] = std::min((LabelType)(gm_.numberOfLabels(i)-1), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
               }
            }
            ++currentStep_;
@@ -760,7 +760,7 @@ namespace proposal_gen{
                 }
              } 
              if(param_.useLocalMargs_){
-                localMargGens_.reserve(bluredOpt.size());
+                localMargGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    const ValueType minValue = *std::min_element(margs[var].begin(),margs[var].end());
                    for(LabelType l=0; l<numLabels; ++l){
@@ -772,10 +772,10 @@ namespace proposal_gen{
                    localMargGens_[var]=opengm::RandomDiscreteWeighted<LabelType,ValueType>(margs[var].begin(),margs[var].end(),var);  
                 }
              }else{
-                uniformGens_.reserve(bluredOpt.size());
+                uniformGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    LabelType minVal = (LabelType)(std::max((double)(0)         , bluredOpt[var]-param_.sigma_*1.5));
-                   LabelType maxVal = (LabelType)(std::min((double)(numLabels) , bluredOpt[var]+param_.sigma_*1.5));
+                   LabelType maxVal = (LabelType)(std::min((double)(numLabels-1) , bluredOpt[var]+param_.sigma_*1.5));
                    uniformGens_[var] = opengm::RandomUniform<LabelType>(minVal, maxVal+1, var);
                 }
              }   
-- 
2.43.0


From b119d66619f3f4df52c845afdd7f2552ef3da044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 120/162] fix: SelfFusion visited again after the visitor asked
 to stop at the begin of the solver

---
 include/opengm/inference/self_fusion.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 13abb30..f24ba2a 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -98,6 +98,9 @@ struct FusionVisitor{
     size_t operator()(
         INF  & inf
     ){
+        if(returnFlag_!=visitors::VisitorReturnFlag::ContinueInf){
+            return returnFlag_;
+        }
         return this->fuseVisit(inf);
     }
 
-- 
2.43.0


From 6955881d1a5528bb8a62c4acdf70fb7244d2c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 121/162] fix: DynamincGen never constructed the proposal
 generator it forwards to

---
 include/opengm/inference/fusion_based_inf.hxx | 44 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index aefe502..d277932 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -844,7 +844,45 @@ namespace proposal_gen{
         DynamincGen(const GM & gm, const Parameter & param)
         : 
             gm_(gm),
-            param_(param){
+            param_(param),
+            alphaExpansionGen_(NULL),
+            alphaBetaSwapGen_(NULL),
+            upDownGen_(NULL),
+            randomGen_(NULL),
+            randomLFGen_(NULL),
+            nonUniformRandomGen_(NULL),
+            blurGen_(NULL),
+            energyBlurGen_(NULL){
+            if(param_.gen_ == AlphaExpansion)
+                alphaExpansionGen_ = new AlphaExpansionGen<GM, ACC>(gm_, typename AlphaExpansionGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == AlphaBetaSwap)
+                alphaBetaSwapGen_ = new AlphaBetaSwapGen<GM, ACC>(gm_, typename AlphaBetaSwapGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == UpDown)
+                upDownGen_ = new UpDownGen<GM, ACC>(gm_, typename UpDownGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Random)
+                randomGen_ = new RandomGen<GM, ACC>(gm_, typename RandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == RandomLF)
+                randomLFGen_ = new RandomLFGen<GM, ACC>(gm_, typename RandomLFGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == NonUniformRandom)
+                nonUniformRandomGen_ = new NonUniformRandomGen<GM, ACC>(gm_, typename NonUniformRandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Blur)
+                blurGen_ = new BlurGen<GM, ACC>(gm_, typename BlurGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == EnergyBlur)
+                energyBlurGen_ = new EnergyBlurGen<GM, ACC>(gm_, typename EnergyBlurGen<GM, ACC>::Parameter());
+            else{
+                throw RuntimeError("unknown generator type");
+            }
+        }
+
+        ~DynamincGen(){
+            delete alphaExpansionGen_;
+            delete alphaBetaSwapGen_;
+            delete upDownGen_;
+            delete randomGen_;
+            delete randomLFGen_;
+            delete nonUniformRandomGen_;
+            delete blurGen_;
+            delete energyBlurGen_;
         }
 
         void reset(){
@@ -911,6 +949,10 @@ namespace proposal_gen{
             }
         }
     private:
+        // not copyable, the generators are owned
+        DynamincGen(const DynamincGen &);
+        DynamincGen & operator=(const DynamincGen &);
+
         const GM & gm_;
         Parameter param_;
 
-- 
2.43.0


From a07780c67b99fc9db1cddb2ac0aebfd10a7da437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 122/162] fix: the bound of external::QPBO ignored factors
 without variables

---
 include/opengm/inference/external/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index 7148bb9..f11afe6 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -153,7 +153,7 @@ namespace opengm {
          qpbo_->AddNode(numVariables); // add two nodes
          for(size_t j = 0; j < gm_.numberOfFactors(); ++j) {
             if(gm_[j].numberOfVariables() == 0) {
-               ; //constTerm_+= gm_[j](0);
+               constTerm_ += gm_[j](vec0);
             }
             else if(gm_[j].numberOfVariables() == 1) {
                qpbo_->AddUnaryTerm((int) (gm_[j].variableIndex(0)), gm_[j](vec0), gm_[j](vec1));
-- 
2.43.0


From 086ba0693a9ff0c21bd2811c4222c7fd477016ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 123/162] fix: external::QPBO freed arrays with delete

---
 include/opengm/inference/external/qpbo.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index f11afe6..4a723ef 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -169,8 +169,8 @@ namespace opengm {
       template<class GM>
       QPBO<GM>
       ::~QPBO() {
-         delete label_;
-         delete defaultLabel_;
+         delete[] label_;
+         delete[] defaultLabel_;
 		 delete qpbo_;
       }
 
@@ -236,7 +236,7 @@ namespace opengm {
             qpbo_->Probe(new_mapping, options);
             qpbo_->MergeMappings(gm_.numberOfVariables(), mapping, new_mapping);
             qpbo_->ComputeWeakPersistencies();
-            delete new_mapping;
+            delete[] new_mapping;
 
             // Read out entire labelling again (as weak persistencies may have changed)
             countUnlabel = 0;
@@ -268,7 +268,7 @@ namespace opengm {
 
             // Run QPBO-I
             qpbo_->Improve(countUnlabel, improve_order);
-            delete improve_order;
+            delete[] improve_order;
 
             // Read out the labels
             for(int i = 0; i < countUnlabel; ++i) {
@@ -277,8 +277,8 @@ namespace opengm {
          }
        
          visitor.end(*this);
-         delete mapping;
-	 delete listUnlabel;
+         delete[] mapping;
+         delete[] listUnlabel;
          return NORMAL;
       }
 
-- 
2.43.0


From 5765adc560a43dc3eb5837f0784db633de178956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 124/162] fix: external::QPBO reported unlabeled variables as
 labeled 1

---
 include/opengm/inference/external/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index 4a723ef..37e2c2e 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -310,7 +310,7 @@ namespace opengm {
             arg.resize(gm_.numberOfVariables(), TBX);
             for(int i = 0; i < gm_.numberOfVariables(); ++i) {
                if(label_[i] < 0) arg[i] = TBX;
-               if(label_[i] == 0) arg[i] = TB0;
+               else if(label_[i] == 0) arg[i] = TB0;
                else arg[i] = TB1;
             }
             return NORMAL;
-- 
2.43.0


From fa477758c5a8cbbef1bfc73059eb4db53d3a3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 125/162] fix: converting parameters of external::QPBO dropped
 the initial labels

---
 include/opengm/inference/external/qpbo.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index 37e2c2e..f77a499 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -64,7 +64,8 @@ namespace opengm {
             :
                 strongPersistency_(p.strongPersistency_),
                 useImproveing_ (p.useImproveing_),
-                useProbeing_ (p.useProbeing_)
+                useProbeing_ (p.useProbeing_),
+                label_(p.label_.begin(), p.label_.end())
             {
 
             }
-- 
2.43.0


From 3441799d9f943928f1ede72669ab00d164db759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 126/162] fix: a second HQPBO::infer worked on an energy
 already reduced

---
 include/opengm/inference/hqpbo.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/hqpbo.hxx b/include/opengm/inference/hqpbo.hxx
index a621ef0..a8e9910 100644
--- a/include/opengm/inference/hqpbo.hxx
+++ b/include/opengm/inference/hqpbo.hxx
@@ -194,7 +194,9 @@ HQPBO<GM,ACC>::infer(VISITOR & visitor)
 {
    visitor.begin(*this);
    kolmogorov::qpbo::QPBO<ValueType>  qr(gm_.numberOfVariables(), 0);
-   hoe_.ToQuadratic(qr);
+   // the reduction destroys the energy, keep ours for the next call
+   HigherOrderEnergy<ValueType, 10> hoe(hoe_);
+   hoe.ToQuadratic(qr);
    qr.Solve();
    IndexType numberOfChangedVariables = 0;
    for (IndexType i = 0; i < gm_.numberOfVariables(); ++i)
-- 
2.43.0


From 6957de39cf7d13956254792c42185ef96c725208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 127/162] fix: converting parameters of AlphaExpansionFusion
 took the label order as initial labels

---
 include/opengm/inference/alphaexpansionfusion.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 9c26741..4c5686f 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -68,7 +68,7 @@ public:
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         size_t maxNumberOfSteps_;
-- 
2.43.0


From 07d054fb7230d1b3a93be87fe777ca3ad7c0dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 128/162] fix: AlphaExpansionFusion's locally optimal start
 used factor indices as variable indices

---
 include/opengm/inference/alphaexpansionfusion.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 4c5686f..251e79f 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -561,16 +561,18 @@ AlphaExpansionFusion<GM, ACC>::setInitialLabel
 template<class GM, class ACC>
 inline void
 AlphaExpansionFusion<GM, ACC>::setInitialLabelLocalOptimal() {
-   label_.resize(gm_.numberOfVariables(), 0);
+   label_.assign(gm_.numberOfVariables(), 0);
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
+         const IndexType var = gm_[i].variableIndex(0);
          std::vector<size_t> state(1, 0);
          ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
+         label_[var] = 0;
+         for(state[0]=1; state[0]<gm_.numberOfLabels(var); ++state[0]) {
             if(AccumulationType::bop(gm_[i](state.begin()), value)) {
                value = gm_[i](state.begin());
-               label_[i] = state[0];
+               label_[var] = state[0];
             }
          }
       }
-- 
2.43.0


From b87f0141293b76ec98d0c4d97a7d890b4d4fac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 129/162] fix: AStar parameters copied from another AStar's
 parameters had an uninitialised heuristic

---
 include/opengm/inference/astar.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 62ef049..7d529f6 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -110,6 +110,7 @@ namespace opengm {
         :   maxHeapSize_(p.maxHeapSize_),
             numberOfOpt_(p.numberOfOpt_),
             objectiveBound_(p.objectiveBound_),
+            heuristic_(p.heuristic_),
             nodeOrder_(p.nodeOrder_),
             treeFactorIds_(p.treeFactorIds_){
         }
-- 
2.43.0


From 402c87d8e54ae37572723452a149b157c1f2aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 130/162] fix: TRWS decompositions did not refuse factors
 without variables or, for edges, of higher order

---
 include/opengm/inference/trws/trws_decomposition.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 2f282f0..83e55b7 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -142,7 +142,7 @@ public:
 		{
 			if (gm[fId].numberOfVariables()==1) continue;
 			if ((gm[fId].numberOfVariables()>2) || (gm[fId].numberOfVariables()==0))
-				std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
+				throw std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
 
 			//factor of order 2:
 			parent::_variableLists[pwFid][0]=gm[fId].variableIndex(0);
@@ -319,8 +319,8 @@ void Decomposition<GM>::_CreateNodeList(const GM & gm,NodeList* pnodeList)
 	varList.resize(gm.numberOfVariables());
 	for (IndexType factorId=0;factorId<gm.numberOfFactors();++factorId)
 	{
-		if (gm[factorId].numberOfVariables()>2)
-			throw std::runtime_error("CreateEdgeList(): Only factors up to order 2 are supported!");
+		if (gm[factorId].numberOfVariables()>2 || gm[factorId].numberOfVariables()==0)
+			throw std::runtime_error("CreateEdgeList(): Only factors of order 1 or 2 are supported!");
 
 		if (gm[factorId].numberOfVariables()==1) continue;
 		std::vector<IndexType> varIndices(gm[factorId].variableIndicesBegin(),gm[factorId].variableIndicesEnd());
-- 
2.43.0


From d49b8aafa01083197791257a5ea45a34eec7c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 131/162] fix: the edge decomposition of TRWS dropped variables
 without pairwise factors

---
 include/opengm/inference/trws/trws_decomposition.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 83e55b7..ba0590c 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -150,6 +150,7 @@ public:
 			parent::_pwFactorLists[pwFid][0]=fId;
 			++pwFid;
 		}
+		parent::CheckForIsolatedNodes(gm);
 	}
 };
 
-- 
2.43.0


From c533b9304aa953d3f747addcf0d5d0fe1d047804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 132/162] fix: the grid decomposition of TRWS accepted models
 that are no grids and used uninitialised sizes

---
 .../opengm/inference/trws/trws_decomposition.hxx   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index ba0590c..d508b57 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -220,6 +220,7 @@ template<class GM>
 GridDecomposition<GM>::GridDecomposition(const GM& gm,IndexType numSubModels)
 :parent(gm,numSubModels)
  {
+	parent::CheckDuplicateUnaryFactors(gm);
 	//estimate xsize and ysize
 	_computeGridSizes();
 	parent::_numberOfModels=_xsize+_ysize;
@@ -238,7 +239,8 @@ void GridDecomposition<GM>::_computeGridSizes()
 {
 	IndexType numberOfVars=parent::_gm.numberOfVariables();
 	IndexType numTotal=parent::_gm.numberOfFactors();
-	std::vector<IndexType> ind;
+	_xsize=numberOfVars;
+	_ysize=1;
 	for (IndexType f=numberOfVars;f<numTotal;++f)
 	{
 		std::vector<IndexType> ind(parent::_gm[f].numberOfVariables());
@@ -255,14 +257,10 @@ void GridDecomposition<GM>::_computeGridSizes()
 			if (numberOfVars%_xsize !=0)
 				throw std::runtime_error("GridDecomposition<GM>::_computeGridSizes():Incorrect grid structure! : numberOfVars%xsize !=0");
 			break;
-		}else if (f==numTotal-1)
-		{
-			_xsize=numberOfVars;
-			_ysize=1;
-			break;
-		};
-
+		}
 	};
+	if (numTotal!=numberOfVars+(_xsize-1)*_ysize+_xsize*(_ysize-1))
+		throw std::runtime_error("GridDecomposition<GM>::_computeGridSizes():Incorrect grid structure! : wrong number of pairwise factors");
 	_CheckGridModel();
 };
 
-- 
2.43.0


From 5e419604d3faf193675bb6f745f4d647c0ebb848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 133/162] fix: TRWS asserted that the primal bound exceeds the
 dual bound by a multiple of the dual bound, which fails at an optimum

---
 include/opengm/inference/trws/trws_base.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_base.hxx b/include/opengm/inference/trws/trws_base.hxx
index facdcba..f506404 100644
--- a/include/opengm/inference/trws/trws_base.hxx
+++ b/include/opengm/inference/trws/trws_base.hxx
@@ -582,7 +582,7 @@ void TRWSPrototype<SubSolver>::_InitSubSolvers()
 template <class SubSolver>
 bool TRWSPrototype<SubSolver>::CheckDualityGap(ValueType primalBound,ValueType dualBound)
 {
-	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >  -dualBound*std::numeric_limits<ValueType>::epsilon());
+	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >= -std::max((ValueType)1,(ValueType)fabs(dualBound))*std::sqrt(std::numeric_limits<ValueType>::epsilon()));
 
 //	_fout << "(ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)=" << (ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)
 //			<< ", -dualBound*std::numeric_limits<ValueType>::epsilon()=" << -dualBound*std::numeric_limits<ValueType>::epsilon()<<std::endl;
-- 
2.43.0


From 0840a84b47b0ae77839d162cec93596b050e3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 134/162] fix: converting parameters of
 DualDecompositionSubGradient dropped those of the base class

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index ae3247d..ece07e5 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -66,7 +66,8 @@ namespace opengm {
 
             template<class P>
             Parameter(const P & p)
-            :   subPara_(p.subPara_),
+            :   DualDecompositionBaseParameter(p),
+                subPara_(p.subPara_),
                 useAdaptiveStepsize_(p.useAdaptiveStepsize_),
                 useProjectedAdaptiveStepsize_(p.useProjectedAdaptiveStepsize_){
 
-- 
2.43.0


From 0ad9be8e9cf7f8358e43f87eee63480f3fc03aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 135/162] fix: DualDecompositionSubGradient divided by the norm
 of a zero subgradient

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index ece07e5..c79ba42 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -225,6 +225,10 @@ namespace opengm {
 //            std::cout << stepsize << std::endl;
          }
      
+         if(!(fabs(stepsize) <= std::numeric_limits<double>::max())){
+            stepsize = 0; // the subgradient is zero
+         }
+
          if(typeid(AccumulationType) == typeid(opengm::Minimizer))
             stepsize *=1;
          else 
-- 
2.43.0


From b774aafeb5a6b38fa84891e8c92116a5dd48d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 136/162] fix: NesterovAcceleratedGradient did not end the
 visitor if the first labeling is optimal

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index b135cf6..d154557 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -293,6 +293,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		parent::_fout << "NesterovAcceleratedGradient::_CheckStoppingCondition(): Precision attained! Problem solved!"<<std::endl;
 	#endif
 
+		 visitor.end();
 		 return NORMAL;
 	}
 
-- 
2.43.0


From 8acbe4d24275f2e3146344f451235045e9ef8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 137/162] fix: NesterovAcceleratedGradient visited again after
 the visitor asked to stop

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index d154557..d630172 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -316,6 +316,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 
 	omega=omega/2.0;
 
+	bool stopped=false;
 	for (size_t i=0;i<_parameters.maxNumberOfIterations();++i)
 	{
 #ifdef TRWS_DEBUG_OUTPUT
@@ -426,6 +427,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 			visitor.log("oracleCalls",(double)counter);
 			visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
 			if( flag != visitors::VisitorReturnFlag::ContinueInf ){
+				stopped=true;
 				break;
 			}
 
@@ -435,9 +437,12 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 	}
 	//update smoothing
 	parent::_SelectOptimalBoundsAndLabeling();
+	if (!stopped)
+	{
 	   visitor();
 	   visitor.log("oracleCalls",(double)counter);
 	   visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+	}
 	visitor.end();
 
 	return NORMAL;
-- 
2.43.0


From cd6f508a9aae73fb4771530a279a978b2b9f9eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 138/162] fix: NesterovAcceleratedGradient went along the wrong
 direction for Maximizer unless the step size is adaptive

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index d630172..7897313 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -327,7 +327,8 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 //===================== begin of internal loop ===========================================
 		for (size_t j=0;j<_parameters.numberOfInternalIterations();++j)
 		{
-		ValueType mul=1.0;
+		ValueType mul;
+		ACC::iop(-1.0,1.0,mul);//!> plus/minus depending on ACC
 
 		counter+=2; ValueType oldObjVal=_evaluateGradient(y,&gradient);
 #ifdef TRWS_DEBUG_OUTPUT
@@ -346,7 +347,6 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		do
 		{
     		omega*=2.0;
-			ACC::iop(-1.0,1.0,mul);
 			_GradientStep(gradient,y,lambda,mul/omega);//!>lambda=y+gradient/omega; plus/minus depending on ACC
 
 			//newObjVal=_evaluateSmoothObjective(lambda,((j+1)==_parameters.numberOfInternalIterations()));
@@ -374,7 +374,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 			_GradientStep(gradient,y,lambda,mul/omega);
 			break;
 		default:
-			std::runtime_error("NesterovAcceleratedGradient::infer():Error! Unknown value of the step size selector _parameters.gradientStep_.");
+			throw std::runtime_error("NesterovAcceleratedGradient::infer():Error! Unknown value of the step size selector _parameters.gradientStep_.");
 			break;
 		}//switch
 
-- 
2.43.0


From a1a19b7858363c396703410d38fdabe7b7d88849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 139/162] fix: ADSal ignored stop requests of visitors during
 the presolve and visited again after one

---
 include/opengm/inference/trws/trws_adsal.hxx | 36 +++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/trws/trws_adsal.hxx b/include/opengm/inference/trws/trws_adsal.hxx
index 65335e5..b078da7 100644
--- a/include/opengm/inference/trws/trws_adsal.hxx
+++ b/include/opengm/inference/trws/trws_adsal.hxx
@@ -143,6 +143,20 @@ public:
 	   */
 	  InferenceTermination oldinfer();
 private:
+	  //! keeps in mind whether a visitor asked to stop
+	  template<class VISITOR> struct StopRecorder
+	  {
+		  StopRecorder(VISITOR& visitor):visitor_(visitor),stopped_(false){}
+		  size_t operator()()
+		  {
+			  const size_t flag=visitor_();
+			  if( flag != visitors::VisitorReturnFlag::ContinueInf ) stopped_=true;
+			  return flag;
+		  }
+		  VISITOR& visitor_;
+		  bool stopped_;
+	  };
+
 	  Parameter _parameters;
 };
 
@@ -159,7 +173,16 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 
 	if (parent::_sumprodsolver.GetSmoothing()<=0.0)
 	{
-		if (parent::_Presolve(visitor, &counter)==CONVERGENCE)
+		StopRecorder<visitors::VisitorWrapper<VISITOR,ADSal<GM, ACC> > > recorder(visitor);
+		InferenceTermination presolved=parent::_Presolve(recorder, &counter);
+		if (recorder.stopped_)
+		{
+			parent::_SelectOptimalBoundsAndLabeling();
+			visitor.end();
+			return NORMAL;
+		}
+
+		if (presolved==CONVERGENCE)
 		{
 			parent::_SelectOptimalBoundsAndLabeling();
 			visitor();
@@ -176,6 +199,7 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 	}
 
 	bool forwardMoveNeeded=true;
+	bool stopped=false;
    for (size_t i=0;i<_parameters.numOfExternalIterations_;++i)
    {
 #ifdef TRWS_DEBUG_OUTPUT
@@ -235,6 +259,7 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 		visitor.log("oracleCalls",(double)counter);
 		visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
 		if( flag != visitors::VisitorReturnFlag::ContinueInf ){
+			stopped=true;
 			break;
 		}
 
@@ -251,9 +276,12 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
    }
 
    parent::_SelectOptimalBoundsAndLabeling();
-   visitor();
-   visitor.log("oracleCalls",(double)counter);
-   visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+   if (!stopped)
+   {
+      visitor();
+      visitor.log("oracleCalls",(double)counter);
+      visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+   }
    visitor.end();
 
 	return NORMAL;
-- 
2.43.0


From 247845cccacc522b48b194f1f32e621fd7cd6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 140/162] fix: DMC did not report its value, and did not end
 the visit of a model it cannot decompose

---
 include/opengm/inference/dmc.hxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/dmc.hxx b/include/opengm/inference/dmc.hxx
index 80b6383..4e9fa5a 100644
--- a/include/opengm/inference/dmc.hxx
+++ b/include/opengm/inference/dmc.hxx
@@ -59,8 +59,7 @@ public:
     void setStartingPoint(typename std::vector<LabelType>::const_iterator);
     virtual InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const ;
     virtual ValueType value()const{
-        assert(false);  // FIXME: the return of this function was missing, just added something arbitrary
-        return ValueType();
+        return value_;
     }
 
 private:
@@ -82,7 +81,7 @@ DMC<GM, INF>::DMC
     param_(parameter),
     value_(),
     arg_(gm.numberOfVariables(), 0) {
-
+    value_ = gm_.evaluate(arg_);
 }
 
 
@@ -282,9 +281,8 @@ InferenceTermination DMC<GM,INF>::infer
             offset += nSubVar;
         }
         value_ = gm_.evaluate(arg_);
-        visitor.end(*this);
-
     }
+    visitor.end(*this);
     return NORMAL;
 }
 
-- 
2.43.0


From 01c77a164e624e3cd5019726b5e88d60e6286e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 141/162] fix: DMC joined two variables which several factors
 connect even if cutting all of them is cheaper

---
 include/opengm/inference/dmc.hxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/dmc.hxx b/include/opengm/inference/dmc.hxx
index 4e9fa5a..78c6b87 100644
--- a/include/opengm/inference/dmc.hxx
+++ b/include/opengm/inference/dmc.hxx
@@ -226,8 +226,16 @@ InferenceTermination DMC<GM,INF>::infer
             else if(nSubVar==2){
                 const IndexType gvi0 = subVar[subProb][0];
                 const IndexType gvi1 = subVar[subProb][1];
+                // several factors can connect the two variables
+                ValueType weight = ValueType();
+                for(size_t f=0; f<gm_.numberOfFactors(gvi0); ++f){
+                    const IndexType nfi = gm_.factorOfVariable(gvi0, f);
+                    if(usedFactors_[nfi] != 1){
+                        weight += gm_[nfi](lAB) - gm_[nfi](lAA);
+                    }
+                }
                 arg_[gvi0] =     offset;
-                arg_[gvi1] =     offset;
+                arg_[gvi1] =     (weight < 0 ? offset + 1 : offset);
             }
             else{
 
-- 
2.43.0


From d3987bbd9f54eb2133c8729a99fc237af1d0183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 142/162] fix: MQPBO did not report a variable as decided if
 its first or last label is the one that remains

---
 include/opengm/inference/mqpbo.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index 44ee5e0..3727b20 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -781,7 +781,7 @@ namespace opengm {
          if(optimal_[var]) continue;
          LabelType countTRUE = 0;
          LabelType countFALSE = 0;
-         for(LabelType l=1; l+1<gm_.numberOfLabels(var);++l){
+         for(LabelType l=0; l<gm_.numberOfLabels(var);++l){
             if(partialOptimality_[var][l]==opengm::Tribool::True) 
                ++countTRUE;
             if(partialOptimality_[var][l]==opengm::Tribool::False) 
@@ -789,16 +789,16 @@ namespace opengm {
          }
          if(countTRUE==1){
             optimal_[var]=true;
-            for(LabelType l=1; l+1<gm_.numberOfLabels(var);++l){
+            for(LabelType l=0; l<gm_.numberOfLabels(var);++l){
                if(partialOptimality_[var][l]==opengm::Tribool::True)
                   label_[var]=l;
                else
                   partialOptimality_[var][l]=opengm::Tribool::False;
             }
          }
-         if(countFALSE+1==gm_.numberOfLabels(var)){
+         else if(countFALSE+1==gm_.numberOfLabels(var)){
             optimal_[var]=true;
-            for(LabelType l=1; l+1<gm_.numberOfLabels(var);++l){
+            for(LabelType l=0; l<gm_.numberOfLabels(var);++l){
                if(partialOptimality_[var][l]==opengm::Tribool::Maybe){
                   label_[var]=l;
                   partialOptimality_[var][l]=opengm::Tribool::True;
-- 
2.43.0


From d0edb454181ae9d693c905e107e0d38d9c868a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 143/162] fix: MQPBO read labels out of range when it sorts
 them by their min-marginals

---
 include/opengm/inference/mqpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index 3727b20..c7326f9 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -496,7 +496,7 @@ namespace opengm {
             }
             LabelType t;
             for(LabelType i=0; i<numStates;++i){
-               for(LabelType j=i+1; i<numStates;++i){
+               for(LabelType j=i+1; j<numStates;++j){
                   if(marg(&list[j])<marg(&list[i])){
                      t = list[i];
                      list[i]=list[j];
-- 
2.43.0


From dbb938d8f0292f0e140223c160de4591ce6677ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 144/162] fix: MQPBO reported an uninitialised bound

---
 include/opengm/inference/mqpbo.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index c7326f9..cc704f3 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -144,6 +144,7 @@ namespace opengm {
       param_(parameter),
       scale(1)
    {
+      ACC::ineutral(bound_);
       for(size_t j = 0; j < gm_.numberOfFactors(); ++j) {
          if(gm_[j].numberOfVariables() > 2) {
             throw RuntimeError("This implementation of MQPBO supports only factors of order <= 2.");
-- 
2.43.0


From 46336c4fb23ff035e50715645d2bcb1d34b72f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 145/162] fix: MQPBO with Kovtun's method tested labels a
 variable does not have

---
 include/opengm/inference/mqpbo.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index cc704f3..5a52599 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -830,9 +830,10 @@ namespace opengm {
       if(param_.rounds_>1 && param_.strongPersistency_==false)
          std::cout << "WARNING: Using weak persistency and several rounds may lead to wrong results if solution is not unique!"<<std::endl;
 
-      LabelType maxNumberOfLabels = 0;
+      // only labels which all variables have can be tested for all of them
+      LabelType numberOfCommonLabels = gm_.numberOfVariables() > 0 ? gm_.numberOfLabels(0) : 0;
       for(IndexType var=0; var<gm_.numberOfVariables();++var){
-         maxNumberOfLabels = std::max(maxNumberOfLabels, gm_.numberOfLabels(var));
+         numberOfCommonLabels = std::min(numberOfCommonLabels, gm_.numberOfLabels(var));
       }
       bool isPotts = true;
 
@@ -847,7 +848,7 @@ namespace opengm {
       if(param_.useKovtunsMethod_){
          if(isPotts){
             //std::cout << "Use Kovtuns method for potts"<<std::endl;
-            for(LabelType l=0; l<maxNumberOfLabels; ++l) {
+            for(LabelType l=0; l<numberOfCommonLabels; ++l) {
                testQuess(l);
                double xoptimality = optimality(); 
                double xoptimalityV = optimalityV();
-- 
2.43.0


From 5ce94e961b2e4a11fe974ef6a1b62de1958d79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 146/162] fix: MQPBO ignored stop requests of visitors

---
 include/opengm/inference/mqpbo.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index 5a52599..1474883 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -852,9 +852,13 @@ namespace opengm {
                testQuess(l);
                double xoptimality = optimality(); 
                double xoptimalityV = optimalityV();
-               visitor(*this);
+               const size_t flag = visitor(*this);
                visitor.log("optimality",xoptimality);
                visitor.log("optimalityV",xoptimalityV);
+               if(flag != visitors::VisitorReturnFlag::ContinueInf) {
+                  visitor.end(*this);
+                  return NORMAL;
+               }
 
                //std::cout << "partialOptimality  : " << optimality() << std::endl; 
             }
@@ -884,9 +888,13 @@ namespace opengm {
             testPermutation(param_.permutationType_);
             double xoptimality = optimality();
             double xoptimalityV = optimalityV();
-            visitor(*this);
+            const size_t flag = visitor(*this);
             visitor.log("optimality",xoptimality);
             visitor.log("optimalityV",xoptimalityV);
+            if(flag != visitors::VisitorReturnFlag::ContinueInf) {
+               visitor.end(*this);
+               return NORMAL;
+            }
 
             //std::cout << "partialOptimality  : " << optimality() << std::endl;
          }
-- 
2.43.0


From edb3a6ea111828c905da7bd3113cf19e1cafe7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 147/162] fix: HQPBO hid arg and bound from the inference
 interface, so that its value and bound were those of no labeling

---
 include/opengm/inference/hqpbo.hxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/hqpbo.hxx b/include/opengm/inference/hqpbo.hxx
index a8e9910..a6c0986 100644
--- a/include/opengm/inference/hqpbo.hxx
+++ b/include/opengm/inference/hqpbo.hxx
@@ -58,7 +58,8 @@ public:
    InferenceTermination infer();
    template<class VISITOR>
       InferenceTermination infer(VISITOR &);
-   InferenceTermination arg(std::vector<LabelType>&, const size_t& = 1) const;
+   InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const;
+   ValueType bound() const;
    void setStartingPoint(typename std::vector<LabelType>::const_iterator begin );
 private:
    const GraphicalModelType& gm_;
@@ -86,6 +87,7 @@ HQPBO<GM,ACC>::HQPBO
 )
    :  gm_(gm), constV_(0.0), conf_(std::vector<LabelType>(gm.numberOfVariables(),0))
 {
+   ACC::ineutral(bound_);
    hoe_.AddVars(gm_.numberOfVariables());
    for (IndexType f = 0; f < gm_.numberOfFactors(); ++f)
    {
@@ -225,7 +227,7 @@ inline InferenceTermination
 HQPBO<GM,ACC>::arg
 (
    std::vector<LabelType>& arg,
-   const size_t& n
+   const size_t n
    ) const
 {
    if(n > 1) {
@@ -240,6 +242,13 @@ HQPBO<GM,ACC>::arg
 }
 
 
+template<class GM,class ACC>
+inline typename HQPBO<GM,ACC>::ValueType
+HQPBO<GM,ACC>::bound() const
+{
+   return bound_;
+}
+
 } // namespace opengm
 
 #endif // #ifndef OPENGM_HQPBO_HXX
-- 
2.43.0


From c641fd271854cf7b343d9b5f07ec997fd93f93b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 148/162] fix: mergeFactors added functions whatever the
 operation of the model is

---
 .../opengm/inference/auxiliary/submodel/submodel_builder.hxx  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx b/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
index 91610d6..4271281 100644
--- a/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
+++ b/include/opengm/inference/auxiliary/submodel/submodel_builder.hxx
@@ -76,7 +76,9 @@ void mergeFactors(
                 ArrayFunction buffer(fac.shapeBegin(),fac.shapeEnd());
                 fac.copyValues(&buffer(0));
                 // update function
-                function+=buffer;
+                for(size_t i=0;i<function.size();++i){
+                    GM::OperatorType::op(buffer(i),function(i));
+                }
             }
 
         }
-- 
2.43.0


From c93b6e0101e9544ed02cc268d70972dff013c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 149/162] fix: the bound of HQPBO lacked the values of the
 factors at the all-zero labeling

---
 include/opengm/inference/hqpbo.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/hqpbo.hxx b/include/opengm/inference/hqpbo.hxx
index a6c0986..9848603 100644
--- a/include/opengm/inference/hqpbo.hxx
+++ b/include/opengm/inference/hqpbo.hxx
@@ -104,6 +104,7 @@ HQPBO<GM,ACC>::HQPBO
          IndexType var = gm_[f].variableIndex(0);
          const ValueType e0 = gm_[f](&l0);
          const ValueType e1 = gm_[f](&l1);
+         constV_ += e0;
          hoe_.AddUnaryTerm(var, e1 - e0);
       }
       else
@@ -133,6 +134,10 @@ HQPBO<GM,ACC>::HQPBO
                }
             }
             ValueType energy = gm_[f](cliqueLabels);
+            if (assignment == 0)
+            {
+               constV_ += energy;
+            }
             for (unsigned int subset = 1; subset < numAssignments; ++subset)
             {
                if (assignment & ~subset)
-- 
2.43.0


From 679e97741f2da356014b9b106cc21ced6ff712bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 150/162] fix: the bound of ReducedInference lacked the values
 of higher-order factors at the all-zero labeling

---
 include/opengm/inference/reducedinference.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/reducedinference.hxx b/include/opengm/inference/reducedinference.hxx
index c533fa6..713720d 100644
--- a/include/opengm/inference/reducedinference.hxx
+++ b/include/opengm/inference/reducedinference.hxx
@@ -271,6 +271,7 @@ namespace opengm {
 	IndexType var = gm_[f].variableIndex(0);
 	const ValueType e0 = gm_[f](&l0);
 	const ValueType e1 = gm_[f](&l1);
+	constV += e0;
 	hoe.AddUnaryTerm(var, e1 - e0);
       } else {
 	unsigned int numAssignments = 1 << size;
@@ -292,6 +293,9 @@ namespace opengm {
 	    }
 	  }
 	  ValueType energy = gm_[f](cliqueLabels);
+	  if(assignment == 0) {
+	    constV += energy;
+	  }
 	  for (unsigned int subset = 1; subset < numAssignments; ++subset){
 	    if (assignment & ~subset) {
 	      continue;
-- 
2.43.0


From 71d06807799299ef97859913e2763f734f585172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 151/162] fix: AStar reported the bound 0 for models without
 variables

---
 include/opengm/inference/astar.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 7d529f6..f130e77 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -317,6 +317,10 @@ namespace opengm {
       AStarNode<IndependentFactorType> a;
       a.conf.resize(0);
       a.value = 0;
+      if(numNodes_ == 0) {
+         // nothing will be expanded
+         a.value = gm_.evaluate(a.conf);
+      }
       array_.assign(1, a);
       visitor.begin(*this);    
       while(array_.size()>0 && exitFlag==0) {
-- 
2.43.0


From e093d9d2b3d14d744c6b30f8dd21b0daf351a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 152/162] fix: visitors logged values to the wrong visit or out
 of range unless every visit is protocolled, lost the time before them, and
 logged twice when inference runs twice

---
 .../opengm/inference/visitors/visitors.hxx    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index b5443b1..40b716e 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -1,6 +1,7 @@
 #ifndef OPENGM_VISITOR_HXX
 #define OPENGM_VISITOR_HXX
 
+#include <algorithm>
 #include <iostream>
 #include <map> 
 #include <cmath>
@@ -73,7 +74,8 @@ public:
 
   void addLog(const std::string & logName){}
   void log(const std::string & logName,const double logValue){
-    if((iteration_)%visithNth_==0){
+    // the latest visit has been counted already
+    if(iteration_>0 && (iteration_-1)%visithNth_==0){
       std::cout<<logName<<" "<<logValue<<"\n";
     }
   }
@@ -142,7 +144,8 @@ public:
     memLogging_(memLogging),
     timeLimit_(timeLimit),
     gapLimit_(gapLimit),
-    totalTime_(0.0)
+    totalTime_(0.0),
+    protocolled_(false)
   {
     // allocate all protocolated items
     ctime_    = & protocolMap_["ctime"]    ;
@@ -168,6 +171,7 @@ public:
       // stop timer which measured time from
       // constructor call to this "begin" call
       timer_.toc();
+      protocolled_=false;
       // store values bound time and iteration number
       const ValueType val=inf.value();
       const ValueType bound=inf.bound();
@@ -196,7 +200,8 @@ public:
 
    size_t operator()(INFERENCE & inf){
 
-      if(iteration_%visithNth_==0){
+      protocolled_ = (iteration_%visithNth_==0);
+      if(protocolled_){
          // stop timer
          timer_.toc();
 
@@ -280,18 +285,22 @@ public:
 
 
   void addLog(const std::string & logName){
-    protocolMap_[logName]=std::vector<double>();
-    extraLogs_.push_back(logName);
+    // inference can be run several times with the same visitor
+    if(std::find(extraLogs_.begin(),extraLogs_.end(),logName)==extraLogs_.end()){
+      protocolMap_[logName]=std::vector<double>();
+      extraLogs_.push_back(logName);
+    }
   }
+  // sets the value which belongs to the latest visit if that visit is protocolled
   void log(const std::string & logName,const double logValue){
-    if((iteration_)%visithNth_==0){
-      timer_.toc();
+    if(protocolled_){
       if(verbose_){
         std::cout<<logName<<" "<<logValue<<"\n";
       }
-      protocolMap_[logName].back()=logValue;        
-      // start timer
-      timer_.tic();
+      std::vector<double> & values = protocolMap_[logName];
+      if(!values.empty()){
+        values.back()=logValue;
+      }
     }
   }
 
@@ -338,6 +347,7 @@ private:
   double timeLimit_;
   double gapLimit_;
   double totalTime_;
+  bool   protocolled_;
 };
 
 template<class INFERENCE>
-- 
2.43.0


From 722d18917404048acc4fcdd25fc738d7de4ed46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 153/162] fix: Bruteforce constructed with a parameter reported
 the value 0 before inference

---
 include/opengm/inference/bruteforce.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/bruteforce.hxx b/include/opengm/inference/bruteforce.hxx
index 2548293..d0a2ee0 100644
--- a/include/opengm/inference/bruteforce.hxx
+++ b/include/opengm/inference/bruteforce.hxx
@@ -92,7 +92,9 @@ Bruteforce<GM, AKK>::Bruteforce
    movemaker_(Movemaker<GM>(gm)),
    states_(std::vector<typename GM::LabelType>(gm.numberOfVariables())),
    energy_(typename Bruteforce<GM, AKK>::ValueType())
-{}
+{
+   AKK::neutral(energy_);
+}
 
 template<class GM, class AKK>
 template<class VISITOR>
-- 
2.43.0


From 92b9dbbc239af9ae8d2f909fd3061e8855864d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 154/162] fix: AStar::arg read before its list of solutions for
 solution number 0

---
 include/opengm/inference/astar.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index f130e77..edbf70c 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -374,7 +374,7 @@ namespace opengm {
    InferenceTermination AStar<GM, ACC>
    ::arg(ConfVec& conf, const size_t n)const
    {
-      if(n>optConf_.size()) {
+      if(n==0 || n>optConf_.size()) {
          conf.resize(gm_.numberOfVariables(),0);
          return UNKNOWN;
       }
-- 
2.43.0


From 356f8b0591b8dc4a7267b23fc575cdc279b4458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 155/162] fix: MessagePassing::reset kept the messages of
 earlier runs

---
 .../opengm/inference/messagepassing/messagepassing_buffer.hxx  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
index 2bfeb7c..99cf144 100644
--- a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
@@ -112,6 +112,9 @@ namespace opengm {
       else {
          buffer1_.resize(&shape, &shape+1, constant);
          buffer2_.resize(&shape, &shape+1, constant);
+         // resizing keeps the values a buffer had before
+         buffer1_ = constant;
+         buffer2_ = constant;
       }
       flag_ = false;
    }
-- 
2.43.0


From 50b8633732ca1dc04aa0c7b761ab6ac522fbf81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 156/162] fix: TRWSi::arg returned the best solution for second
 and further best solutions

---
 include/opengm/inference/trws/trws_trws.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_trws.hxx b/include/opengm/inference/trws/trws_trws.hxx
index da70336..86af6fc 100644
--- a/include/opengm/inference/trws/trws_trws.hxx
+++ b/include/opengm/inference/trws/trws_trws.hxx
@@ -140,8 +140,9 @@ public:
 	  return NORMAL;
   };
 
-  InferenceTermination arg(std::vector<LabelType>& out, const size_t = 1) const
+  InferenceTermination arg(std::vector<LabelType>& out, const size_t n = 1) const
 	  {
+	  if(n != 1) return opengm::UNKNOWN;
 	  out = _solver.arg();
 	  return opengm::NORMAL;}
   virtual ValueType bound() const{return _solver.bound();}
-- 
2.43.0


From f0d33b9b291e6d001c6f16b0738c56889d8aa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 157/162] fix: ADSal and NesterovAcceleratedGradient returned
 the best solution for second and further best solutions

---
 include/opengm/inference/trws/smoothing_strategy.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 4ce5e8d..6a6b76f 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -612,8 +612,10 @@ public:
 
 	  virtual ~SmoothingBasedInference(){delete psmoothingStrategy;  }
 
-	  InferenceTermination arg(std::vector<LabelType>& out, const size_t = 1) const
-	  {out = _bestIntegerLabeling;
+	  InferenceTermination arg(std::vector<LabelType>& out, const size_t n = 1) const
+	  {
+	   if(n != 1) return opengm::UNKNOWN;
+	   out = _bestIntegerLabeling;
 	   return opengm::NORMAL;}
 	  const GraphicalModelType& graphicalModel() const { return _storage.masterModel(); }
 
-- 
2.43.0


From c97ccb066c668974be7bc5c0006f9ba9e065dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 158/162] fix: NesterovAcceleratedGradient could not be run
 again unless a start smoothing was given

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index 7897313..b684436 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -299,7 +299,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 
 	counter+=parent::_EstimateStartingSmoothing(visitor);
 
-	}else
+	}else if (_parameters.startSmoothingValue()>0.0)//otherwise a repeated run goes on with its current smoothing
 	{
 		parent::_sumprodsolver.SetSmoothing(_parameters.startSmoothingValue());
 	}
-- 
2.43.0


From df6e778dcebbe66fd3872b1f07f7683568cf2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 159/162] fix: LPInferenceBase: search violated constraints in
 the LP solution unless node variables are integral (endless loop)

---
 include/opengm/inference/lp_inference_base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index cf47706..8e8b34c 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -2084,7 +2084,7 @@ inline void LPInferenceBase<LP_INFERENCE_TYPE>::countLPVariables() {
 template <class LP_INFERENCE_TYPE>
 inline void LPInferenceBase<LP_INFERENCE_TYPE>::fillLinearConstraintLPVariablesSubsequenceIndices() {
    linearConstraintLPVariablesSubsequenceIndices_.resize(linearConstraintFactors_.size());
-   if(parameter_.integerConstraintNodeVar_ || parameter_.integerConstraintFactorVar_) {
+   if(parameter_.integerConstraintNodeVar_) {
       for(size_t i = 0; i < linearConstraintFactors_.size(); ++i) {
          const IndexType currentFactor = linearConstraintFactors_[i];
          const size_t numVariables = gm_[currentFactor].numberOfVariables();
@@ -2819,7 +2819,7 @@ inline InferenceTermination LPInferenceBase<LP_INFERENCE_TYPE>::infer_impl_selec
 template <class LP_INFERENCE_TYPE>
 template <class VISITOR_TYPE, typename LPInferenceBase<LP_INFERENCE_TYPE>::Parameter::Relaxation RELAXATION, typename LPInferenceBase<LP_INFERENCE_TYPE>::Parameter::ChallengeHeuristic HEURISTIC, bool USE_INFINITE_ITERATIONS, bool ADD_ALL_VIOLATED_CONSTRAINTS>
 inline InferenceTermination LPInferenceBase<LP_INFERENCE_TYPE>::infer_impl_selectLPType(VISITOR_TYPE& visitor) {
-   if(parameter_.integerConstraintNodeVar_ || parameter_.integerConstraintFactorVar_) {
+   if(parameter_.integerConstraintNodeVar_) {
       return infer_impl<VISITOR_TYPE, RELAXATION, HEURISTIC, USE_INFINITE_ITERATIONS, ADD_ALL_VIOLATED_CONSTRAINTS, true>(visitor);
    } else {
       return infer_impl<VISITOR_TYPE, RELAXATION, HEURISTIC, USE_INFINITE_ITERATIONS, ADD_ALL_VIOLATED_CONSTRAINTS, false>(visitor);
-- 
2.43.0


From 68cdf9e7fbca81abb74d883cdba73e8682769719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 160/162] fix: TRWS_Reparametrizer::reparametrize with
 immovable labels took the label count of a variable 0 or 1 of the model
 instead of that of the factor

---
 include/opengm/inference/trws/trws_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_reparametrization.hxx b/include/opengm/inference/trws/trws_reparametrization.hxx
index 4305d6b..4762da6 100644
--- a/include/opengm/inference/trws/trws_reparametrization.hxx
+++ b/include/opengm/inference/trws/trws_reparametrization.hxx
@@ -423,7 +423,7 @@ void TRWS_Reparametrizer<Storage,ACC>::reparametrize(const ImmovableLabelingType
 			  {
 				  IndexType otherVarID=(localVarID==0 ? 1 : 0);
 				  labeling[localVarID]=it.first-it_begin;
-				  for (LabelType label=0;label<gm.numberOfLabels(otherVarID);++label)
+				  for (LabelType label=0;label<gm[factorID].numberOfLabels(otherVarID);++label)
 				  {
 					  labeling[otherVarID]=label;
 
-- 
2.43.0


From 4c4bc50e99983c6a0d9b3bbb796f1b1274ec19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 161/162] fix: CombiLP did not tell the visitor the end when
 the LP solution is consistent

---
 include/opengm/inference/combilp.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/combilp.hxx b/include/opengm/inference/combilp.hxx
index 639dbe9..80d4b75 100644
--- a/include/opengm/inference/combilp.hxx
+++ b/include/opengm/inference/combilp.hxx
@@ -555,7 +555,10 @@ namespace opengm{
 #endif
 
       if (std::count(initialmask.begin(),initialmask.end(),false)==0)
+      {
+         visitor.end(*this);
          return NORMAL;
+      }
 
       trws_base::transform_inplace(initialmask.begin(),initialmask.end(),std::logical_not<bool>());
 
-- 
2.43.0


From 81360bcf526b88fa223aea67a3a125737dfe95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 162/162] fix: CombiLP minimised its subproblems whatever the
 accumulation

---
 include/opengm/inference/combilp.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/combilp.hxx b/include/opengm/inference/combilp.hxx
index 80d4b75..d75f4de 100644
--- a/include/opengm/inference/combilp.hxx
+++ b/include/opengm/inference/combilp.hxx
@@ -147,7 +147,7 @@ namespace opengm{
 
          typedef typename opengm::GraphicalModelManipulator<typename ReparametrizerType::ReparametrizedGMType> GMManipulatorType;
 
-         typedef LPCplex<typename GMManipulatorType::MGM, Minimizer> LPCPLEX;//TODO: move to template parameters
+         typedef LPCplex<typename GMManipulatorType::MGM, ACC> LPCPLEX;//TODO: move to template parameters
 
          CombiLP_base(LPREPARAMETRIZER& reparametrizer, const Parameter& param
 #ifdef TRWS_DEBUG_OUTPUT
-- 
2.43.0

