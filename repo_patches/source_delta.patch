From e6dddd6e341385f669fb665a26c24760a2197c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 01/90] fix: broadcasted multiplicative reduce replicates with
 add after masking

The cleanup mask zeroes all but the reduced slots, so replicating them with
the multiplicative reducer turned every slot into zero.
---
 lib/Kernel/KernelImplementation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Kernel/KernelImplementation.h b/lib/Kernel/KernelImplementation.h
index 9c21078..f5d06b5 100644
--- a/lib/Kernel/KernelImplementation.h
+++ b/lib/Kernel/KernelImplementation.h
@@ -556,11 +556,12 @@ implementBroadcastedReduce(
     current = NodeTy::mul(current, cleanupMaskDag.value());
   }
 
-  // Replication Tree (Left rotations only)
+  // Replication Tree (Left rotations only). The cleanup mask zeroes every slot
+  // but the reduced ones, so replicating is a sum whatever the reduction is.
   for (int64_t rep_shift = 1; rep_shift < steps; rep_shift *= 2) {
     int64_t rotateAmount = rep_shift * period;
     auto rotated = NodeTy::leftRotate(current, rotateAmount);
-    current = reduceFunc(current, rotated);
+    current = NodeTy::add(current, rotated);
   }
 
   return current;
-- 
2.43.0


From d4440a6f9655add5c03e3d39d68adb4579bda504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 02/90] fix: kernel evaluation of floorDiv tests the scalar
 pointer, not its value

A zero scalar fell through to the vector case and a vector operand
dereferenced a null pointer.
---
 lib/Kernel/EvalVisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Kernel/EvalVisitor.cpp b/lib/Kernel/EvalVisitor.cpp
index cfe710b..54dc8e2 100644
--- a/lib/Kernel/EvalVisitor.cpp
+++ b/lib/Kernel/EvalVisitor.cpp
@@ -139,7 +139,7 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
 
   // Scalar case
   const auto* lScalar = std::get_if<int>(&lVal);
-  if (*lScalar) {
+  if (lScalar) {
     return {LiteralValue(*lScalar / node.divisor)};
   }
 
-- 
2.43.0


From 4b281dec027f59d888b83e8b4d62e4ce2975ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:32 +0000
Subject: [PATCH 03/90] fix: multiplying by the zero polynomial yields zero

---
 lib/Utils/Polynomial/Polynomial.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index ac67cba..0f0cd59 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -224,6 +224,9 @@ class PolynomialBase {
   }
 
   Derived naiveMul(const Derived& other) const {
+    // The zero polynomial has no terms, hence no degree.
+    if (isZero() || other.isZero()) return zero();
+
     SmallVector<Monomial> newTerms;
     size_t maxDegree = getDegree() + other.getDegree();
     newTerms.reserve(maxDegree + 1);
-- 
2.43.0


From 0f7ec38aabb8b44b59243fa68d1f78094042c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:32 +0000
Subject: [PATCH 04/90] fix: polynomial addition does not merge terms of
 different degree

---
 lib/Utils/Polynomial/Polynomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index 0f0cd59..b5c828e 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -213,6 +213,8 @@ class PolynomialBase {
         if (it2 == other.terms.end()) break;
       }
       if (it2 == other.terms.end()) continue;
+      // Skipping terms of `other` may have moved past the exponent of it1.
+      if (it1->getExponent() != it2->getExponent()) continue;
 
       Monomial newTerm = it1->add(*it2);
       if (!newTerm.getCoefficient().isZero()) newTerms.push_back(newTerm);
-- 
2.43.0


From 9f41c758c699ed17a7102ac285d4115996908567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 05/90] fix: composing a quadratic Chebyshev series with a line
 subtracts d_2

---
 lib/Utils/Polynomial/Polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index f5240c5..c0cca28 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -145,6 +145,8 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   SmallVector<APFloat> d_kplus2;
   SmallVector<APFloat> d_kplus1 = {c[n]};
   SmallVector<APFloat> d_2_coeffs;
+  // The recurrence below starts from d_n, so it never visits d_2 when n == 2.
+  if (n == 2) d_2_coeffs = d_kplus1;
 
   for (int k = n - 1; k >= 0; --k) {
     int deg_kplus1 = n - (k + 1);
-- 
2.43.0


From 26917eba04d974d361c111f96d0e66b67aeabdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 06/90] fix: trial division terminates for values above the
 largest 64-bit square

---
 lib/Utils/APIntUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/APIntUtils.cpp b/lib/Utils/APIntUtils.cpp
index 96546d3..6ea774c 100644
--- a/lib/Utils/APIntUtils.cpp
+++ b/lib/Utils/APIntUtils.cpp
@@ -120,7 +120,7 @@ std::vector<APInt> factorize(APInt n) {
   // Fast path for 64-bit integers or smaller
   if (n.getActiveBits() <= 64) {
     uint64_t val = n.getZExtValue();
-    for (uint64_t d = 2; d * d <= val; ++d) {
+    for (uint64_t d = 2; d <= val / d; ++d) {
       if (val % d == 0) {
         factors.push_back(APInt(width, d));
         while (val % d == 0) {
-- 
2.43.0


From 5bb6c8837e1331571ebcaa0e881c6605e1132fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 07/90] fix: shortest paths follow predecessor links instead of
 the last relaxed edge

---
 lib/Utils/Graph/Graph.h | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c01c705..590d275 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -437,8 +437,10 @@ class Graph {
   FailureOr<std::vector<V>> getShortestPath(
       V start, V end, std::function<uint64_t(V, V)> weight_fn) {
     std::vector<V> path;
-    std::queue<V> q;
 
+    // Dijkstra's algorithm, with a link from each reached vertex back to its
+    // predecessor on a shortest path.
+    std::set<std::pair<uint64_t, V>> q;
     std::set<V> visited;
     std::map<V, uint64_t> distance;  // from @start node
     std::map<V, V> linkback;
@@ -447,16 +449,13 @@ class Graph {
     }
     distance[start] = 0;
 
-    q.push(start);
+    q.insert({0, start});
 
     while (!q.empty()) {
-      V curr = q.front();
-      q.pop();
+      V curr = q.begin()->second;
+      q.erase(q.begin());
 
-      if (curr == end) {
-        distance[curr] = 0;
-        break;
-      }
+      if (curr == end) break;
 
       if (!visited.insert(curr).second) {
         // backedge
@@ -469,24 +468,24 @@ class Graph {
       }
 
       for (auto& next : outEdges.at(curr)) {
-        if (distance[next] > distance[curr] + weight_fn(curr, next)) {
-          linkback[curr] = next;
-          distance[next] = distance[curr] + weight_fn(curr, next);
-        } else if (distance[curr] == 0) {
-          linkback[curr] = next;
+        uint64_t candidate = distance[curr] + weight_fn(curr, next);
+        if (distance[next] > candidate) {
+          linkback.insert_or_assign(next, curr);
+          distance[next] = candidate;
+          q.insert({candidate, next});
         }
-        q.push(next);
       }
     }
 
     if (distance[end] != std::numeric_limits<uint64_t>::max()) {
       // some path found
-      auto curr = start;
-      while (curr != end) {
+      auto curr = end;
+      while (curr != start) {
         path.push_back(curr);
-        curr = linkback[curr];
+        curr = linkback.at(curr);
       }
-      path.push_back(end);
+      path.push_back(start);
+      std::reverse(path.begin(), path.end());
     } else {
       return failure();
     }
-- 
2.43.0


From 231c2a83eed572d98f558832d3019e8409ddf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 08/90] fix: condensing a graph keeps vertices that have
 self-loops

---
 lib/Utils/Graph/Graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index 590d275..eb12751 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -245,7 +245,8 @@ class Graph {
         for (const V& u : aliveSnapShot) {
           if (!alive.count(u)) continue;
           for (V v : edgesOutOf(u)) {
-            if (alive.count(v)) {
+            // A self-loop is not an edge between two vertices of the SCC.
+            if (v != u && alive.count(v)) {
               contractEdge(u, v, mergeFn);
               alive.erase(v);
             }
-- 
2.43.0


From a04b490e7137de612ee96e9e4afefb3e6ce88bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 09/90] fix: converting a while loop requires condition
 operands to be the loop variables in order

---
 .../ConvertSecretWhileToStaticFor.cpp         | 27 +++++++------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
index 4d22b79..a2fd4cb 100644
--- a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
@@ -3,6 +3,7 @@
 #include <utility>
 
 #include "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"               // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlow/Utils.h"     // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlowFramework.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
@@ -39,28 +40,18 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     auto conditionOp = whileOp.getConditionOp();
     auto whileCondition = conditionOp->getOperand(0);
 
-    auto* beforeRegionArgs = whileOp.getBefore().front().getArguments().data();
-
     auto conditionOpArgs =
         // Get Loop variables: includes all arguments without the condition
         conditionOp->getOperands().drop_front(1);
 
-    int counter = 0;
-    for (auto arg : conditionOpArgs) {
-      // Check if the defining operation of the loop variable passed in
-      // scf.condition is the same as the operation defining the block argument
-      // passed by scf.while. A true value implies that the loop variable is the
-      // same as the block argument, i.e., the original block argument passed by
-      // scf.while has not been changed.
-      bool isEqual =
-          arg.getDefiningOp() == beforeRegionArgs[counter].getDefiningOp();
-      if (!isEqual) {
-        InFlightDiagnostic diag =
-            whileOp.emitWarning()
-            << "Current loop transformation has no support for do-while loops:";
-        return failure();
-      }
-      counter++;
+    // The loop variables passed on by scf.condition must be exactly the block
+    // arguments of the "before" region, in order, i.e., the original block
+    // arguments passed by scf.while have not been changed.
+    if (!llvm::equal(conditionOpArgs, whileOp.getBeforeArguments())) {
+      InFlightDiagnostic diag =
+          whileOp.emitWarning()
+          << "Current loop transformation has no support for do-while loops:";
+      return failure();
     }
 
     auto* conditionSecretnessLattice =
-- 
2.43.0


From 310c787d25edadec8d6244be9d318d6a536a2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 10/90] fix: static loops give the body its induction variable
 in the original integer type

---
 .../ConvertSecretForToStaticFor.cpp                      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index e9483ea..815c4dc 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -75,6 +75,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     // relatively simple affine map
 
     ImplicitLocOpBuilder builder(forOp->getLoc(), rewriter);
+    Type ivType = forOp.getInductionVar().getType();
 
     if (!isa<IndexType>(lowerBound.getType())) {
       lowerBound = arith::IndexCastOp::create(
@@ -124,6 +125,12 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
 
     builder.setInsertionPointToStart(newForOp.getBody());
 
+    // The body uses the induction variable in its original type
+    Value originalIv = inductionVariable;
+    if (!isa<IndexType>(ivType)) {
+      originalIv = arith::IndexCastOp::create(builder, ivType, originalIv);
+    }
+
     if (!isLowerBoundSecret && !isUpperBoundSecret) {
       // If neither bound is secret,
       // we can directly copy the body
@@ -132,6 +139,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
         mp.map(blockArg,
                newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
       }
+      mp.map(forOp.getInductionVar(), originalIv);
       for (auto& op : forOp.getBody()->getOperations()) {
         // Convert scf.yield to affine.yield
         if (auto yieldOp = dyn_cast<scf::YieldOp>(&op)) {
@@ -186,6 +194,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
             mp.map(blockArg,
                    newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
           }
+          mp.map(forOp.getInductionVar(), originalIv);
           for (auto& op : forOp.getBody()->getOperations()) {
             b.clone(op, mp);
           }
-- 
2.43.0


From 3c99e8e0c8c338bfae05e6953ebaadb2ca1d0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 11/90] fix: static loops with a secret lower bound keep the
 stride of the original loop

---
 .../ConvertSecretForToStaticFor.cpp              | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index 815c4dc..bfba5b8 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -114,10 +114,13 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
     }
 
+    // The iterations of a loop with a secret lower bound start at a secret
+    // offset, so every candidate has to be visited, whatever the step.
+    int64_t step = forOp.getConstantStep()->getLimitedValue();
     auto newForOp = affine::AffineForOp::create(
         builder, ValueRange(newLowerBound), builder.getSymbolIdentityMap(),
         ValueRange(newUpperBound), builder.getSymbolIdentityMap(),
-        forOp.getConstantStep()->getLimitedValue(), forOp.getInitArgs());
+        isLowerBoundSecret ? 1 : step, forOp.getInitArgs());
 
     newForOp->setAttrs(forOp->getAttrs());
 
@@ -184,6 +187,17 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     auto cond = isLowerBoundSecret ? isUpperBoundSecret ? andI.getResult()
                                                         : cmpILower.getResult()
                                    : cmpIUpper.getResult();
+    if (isLowerBoundSecret && step != 1) {
+      // Execute only the iterations that lie on the original loop's stride
+      Value offset =
+          arith::SubIOp::create(builder, inductionVariable, lowerBound);
+      Value remainder = arith::RemUIOp::create(
+          builder, offset, arith::ConstantIndexOp::create(builder, step));
+      Value onStride = arith::CmpIOp::create(
+          builder, arith::CmpIPredicate::eq, remainder,
+          arith::ConstantIndexOp::create(builder, 0));
+      cond = arith::AndIOp::create(builder, cond, onStride);
+    }
     scf::IfOp ifOp = scf::IfOp::create(
         builder, cond,
         // 'Then' region
-- 
2.43.0


From 8efe06f073fb1cb564c23efa383724d051df2f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:59 +0000
Subject: [PATCH 12/90] fix: static loops accept bounds that depend on an
 enclosing loop

---
 .../ConvertSecretForToStaticFor.cpp                      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index bfba5b8..b341f80 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -117,9 +117,14 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     // The iterations of a loop with a secret lower bound start at a secret
     // offset, so every candidate has to be visited, whatever the step.
     int64_t step = forOp.getConstantStep()->getLimitedValue();
+    // A bound that depends on an enclosing loop is not a symbol but a dimension
+    auto boundMap = [&](Value bound) {
+      return affine::isValidSymbol(bound) ? builder.getSymbolIdentityMap()
+                                          : builder.getDimIdentityMap();
+    };
     auto newForOp = affine::AffineForOp::create(
-        builder, ValueRange(newLowerBound), builder.getSymbolIdentityMap(),
-        ValueRange(newUpperBound), builder.getSymbolIdentityMap(),
+        builder, ValueRange(newLowerBound), boundMap(newLowerBound),
+        ValueRange(newUpperBound), boundMap(newUpperBound),
         isLowerBoundSecret ? 1 : step, forOp.getInitArgs());
 
     newForOp->setAttrs(forOp->getAttrs());
-- 
2.43.0


From 7a05b72d64254521bbab5dfb87c1c6c6a247b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 13/90] fix: layout ciphertext counts use integer division

---
 lib/Utils/Layout/Convolution.cpp | 7 ++++---
 lib/Utils/Layout/Utils.cpp       | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/Utils/Layout/Convolution.cpp b/lib/Utils/Layout/Convolution.cpp
index 74f6b86..6bacdff 100644
--- a/lib/Utils/Layout/Convolution.cpp
+++ b/lib/Utils/Layout/Convolution.cpp
@@ -12,6 +12,7 @@
 #include "lib/Utils/MathUtils.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
+#include "llvm/include/llvm/Support/MathExtras.h"      // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/PresburgerSpace.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypes.h"  // from @llvm-project
@@ -680,7 +681,7 @@ presburger::IntegerRelation get1dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeil(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -737,7 +738,7 @@ presburger::IntegerRelation get2dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeil(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -768,7 +769,7 @@ presburger::IntegerRelation get2dConvRowInterchangeLayoutRelation(
   int64_t numElements = outputType.getNumElements();
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeil(outputType.getNumElements(), minSlotCount);
 
   int64_t paddedSize =
       isPowerOfTwo(numElements) ? numElements : nextPowerOfTwo(numElements);
diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index b05d686..be82392 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -125,7 +125,7 @@ presburger::IntegerRelation getRowMajorLayoutRelation(
   }
   auto rangeOffset = result.getVarKindOffset(VarKind::Range);
   addBounds(result, rangeOffset, 0,
-            std::ceil((float)tensorType.getNumElements() / numSlots) - 1);
+            llvm::divideCeil(tensorType.getNumElements(), numSlots) - 1);
   addBounds(result, rangeOffset + 1, 0, numSlots - 1);
 
   // 0 = (flattened_expr) floordiv minSlotCount - ct
@@ -278,7 +278,7 @@ presburger::IntegerRelation getBicyclicLayoutRelation(
   addBounds(result, rowVarIndex, 0, rows - 1);
   addBounds(result, colVarIndex, 0, cols - 1);
   addBounds(result, ctVarIndex, 0,
-            std::ceil((float)matrixType.getNumElements() / numSlots) - 1);
+            llvm::divideCeil(matrixType.getNumElements(), numSlots) - 1);
   addBounds(result, slotVarIndex, 0, numSlots - 1);
 
   // Let k = ct * numSlots + slot.
@@ -421,7 +421,7 @@ presburger::IntegerRelation getTricyclicLayoutRelation(
   addBounds(result, mVarIndex, 0, m - 1);
   addBounds(result, nVarIndex, 0, n - 1);
   addBounds(result, ctVarIndex, 0,
-            std::ceil((float)tensorType.getNumElements() / numSlots) - 1);
+            llvm::divideCeil(tensorType.getNumElements(), numSlots) - 1);
   addBounds(result, slotVarIndex, 0, numSlots - 1);
 
   // Let k = ct * numSlots + slot.
-- 
2.43.0


From 8aaff6d27e3bb9323c3871f8f587334df880c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 14/90] fix: insertion of a slice with all its dimensions keeps
 the slice's layout

---
 lib/Utils/Layout/Hoisting.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/lib/Utils/Layout/Hoisting.cpp b/lib/Utils/Layout/Hoisting.cpp
index fa580cc..3730078 100644
--- a/lib/Utils/Layout/Hoisting.cpp
+++ b/lib/Utils/Layout/Hoisting.cpp
@@ -129,21 +129,11 @@ FailureOr<presburger::IntegerRelation> pushSliceLayoutThroughInsertSlice(
   } else {
     // When the slice layout already has all domain dimensions, we need to
     // relax the bounds on domain variables corresponding to unit dimensions
-    // to match the result shape. We do this by removing equality and inequality
-    // constraints that involve these dimensions.
+    // to match the result shape. The slice only has index zero in these
+    // dimensions, so fix that index and add an unrelated variable in its place.
     for (auto dim : unitDims) {
-      // Find and remove equalities involving this dimension
-      for (int i = resultLayout->getNumEqualities() - 1; i >= 0; --i) {
-        if (resultLayout->atEq64(i, dim) != 0) {
-          resultLayout->removeEquality(i);
-        }
-      }
-      // Find and remove inequalities involving this dimension
-      for (int i = resultLayout->getNumInequalities() - 1; i >= 0; --i) {
-        if (resultLayout->atIneq64(i, dim) != 0) {
-          resultLayout->removeInequality(i);
-        }
-      }
+      resultLayout->setAndEliminate(dim, 0);
+      resultLayout->insertVar(VarKind::Domain, dim, 1);
       // Add new bounds
       addBounds(*resultLayout, dim, 0, resultShape[dim] - 1);
     }
-- 
2.43.0


From d42e83a885175af9a3f172095bf955e8ae88c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 15/90] fix: modulus constraints keep the local variables of
 their expression

---
 lib/Utils/Layout/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index be82392..f1c2358 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -83,7 +83,7 @@ unsigned int addModConstraint(IntegerRelation& result, ArrayRef<int64_t> exprs,
   // Add equality: mod = expr - q * c
   auto modIndex = result.appendVar(VarKind::Local);
   SmallVector<int64_t> modCoeffs(result.getNumCols(), 0);
-  for (int i = 0; i < result.getVarKindOffset(VarKind::Local); ++i) {
+  for (size_t i = 0; i + 1 < exprs.size(); ++i) {
     modCoeffs[i] = exprs[i];
   }
   modCoeffs.back() = exprs.back();
-- 
2.43.0


From bd047250c9d6f48968fb33b6e48252aecd6702e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 16/90] fix: collapsing and expanding layouts handles groups of
 unit dimensions and several groups

---
 lib/Utils/Layout/Utils.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index f1c2358..312a2d9 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -672,14 +672,30 @@ presburger::IntegerRelation collapseDimensions(
     const presburger::IntegerRelation& relation, RankedTensorType sourceType,
     ArrayRef<ReassociationIndices> reassociation) {
   std::unique_ptr<IntegerRelation> clonedRelation = relation.clone();
-  for (const ReassociationIndices& associationGroup : reassociation) {
+
+  // Collapsing to a rank-0 tensor drops every dimension.
+  if (reassociation.empty()) {
+    for (int64_t i = sourceType.getRank() - 1; i >= 0; --i) {
+      clonedRelation->setAndEliminate(i, 0);
+    }
+    return *clonedRelation;
+  }
+
+  // Iterate starting from the largest index so that earlier deletion do not
+  // impact later indices
+  for (const ReassociationIndices& associationGroup :
+       llvm::reverse(reassociation)) {
     // a single-entry association group is a no-op
     if (associationGroup.size() == 1) {
       continue;
     }
-    // Iterate starting from the largest index so that earlier deletion do not
-    // impact later indices
+    // The collapsed dimension of a group of unit dimensions is itself a unit
+    // dimension, so one of them has to be kept.
+    bool allUnit = llvm::all_of(associationGroup, [&](int64_t dim) {
+      return sourceType.getShape()[dim] == 1;
+    });
     for (int64_t reassocDim : llvm::reverse(associationGroup)) {
+      if (allUnit && reassocDim == associationGroup.front()) continue;
       if (sourceType.getShape()[reassocDim] == 1) {
         // Drop this unit dimension
         clonedRelation->setAndEliminate(reassocDim, 0);
@@ -719,8 +735,14 @@ presburger::IntegerRelation expandDimensions(
       continue;
     }
 
+    // A group of unit dimensions is expanded from a unit dimension, which the
+    // relation already has.
+    bool allUnit = llvm::all_of(associationGroup, [&](int64_t dim) {
+      return resultType.getShape()[dim] == 1;
+    });
     for (int64_t reassocDim : associationGroup) {
-      if (resultType.getShape()[reassocDim] > 1) {
+      if (resultType.getShape()[reassocDim] > 1 ||
+          (allUnit && reassocDim == associationGroup.front())) {
         ++oldDim;
       } else {
         // A new dimension of size 1 is being added, so add a new domain
-- 
2.43.0


From d407fdee8e0cc8362bacb5438ff6ab1f028d087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 17/90] fix: slice relations drop only the dimensions the slice
 type drops

---
 lib/Utils/Layout/Utils.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index 312a2d9..1091068 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -1190,12 +1190,14 @@ FailureOr<presburger::IntegerRelation> getSliceInsertionRelation(
   }
 
   // Source tensor's dimensions (d0, d1, ...) are mapped sequentially to the
-  // destination tensor's dimensions (r0, r1, ...) for which the slice size is
-  // greater than 1.
+  // destination tensor's dimensions (r0, r1, ...) that the slice type does not
+  // drop.
+  auto droppedDims = computeRankReductionMask(sizes, sliceType.getShape());
+  if (!droppedDims) return failure();
   auto constOffset = result.getNumCols() - 1;
   unsigned int sourceDim = 0;
   for (auto destDim = 0; destDim < resultType.getRank(); ++destDim) {
-    if (sizes[destDim] > 1) {
+    if (!droppedDims->contains(destDim)) {
       // Map from the i-th source dimension
       // r_j = offsets[j] + d_i * strides[j]
       addConstraint(result,
@@ -1294,12 +1296,14 @@ FailureOr<presburger::IntegerRelation> getSliceExtractionRelation(
   }
 
   // Destination tensor's dimensions (d0, d1, ...) are mapped sequentially
-  // from the source tensor's dimensions (r0, r1, ...) for which the slice
-  // size is greater than 1.
+  // from the source tensor's dimensions (r0, r1, ...) that the result type does
+  // not drop.
+  auto droppedDims = computeRankReductionMask(sizes, resultType.getShape());
+  if (!droppedDims) return failure();
   auto constOffset = result.getNumCols() - 1;
   unsigned int resultDim = 0;
   for (auto sourceDim = 0; sourceDim < sourceType.getRank(); ++sourceDim) {
-    if (sizes[sourceDim] > 1) {
+    if (!droppedDims->contains(sourceDim)) {
       // Map to the i-th result dimension
       // d_j = offsets[j] + r_i * strides[j]
       addConstraint(result,
-- 
2.43.0


From f4a8ae4462514449e3da5c856c598cd8c35ced24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 18/90] fix: loop nests of relations without an outermost loop

---
 lib/Utils/Layout/Codegen.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/Utils/Layout/Codegen.cpp b/lib/Utils/Layout/Codegen.cpp
index d7c2219..f29d0ac 100644
--- a/lib/Utils/Layout/Codegen.cpp
+++ b/lib/Utils/Layout/Codegen.cpp
@@ -637,6 +637,34 @@ FailureOr<scf::ForOp> MLIRLoopNestGenerator::generateForLoop(
   isl_ast_node* node = tree;
   currentIterArgs_ = initArgs;
 
+  if (isl_ast_node_get_type(node) != isl_ast_node_for) {
+    // There is no outermost loop, e.g., because the relation is a single point.
+    // Put the nest in a loop with one iteration.
+    Value zero = arith::ConstantIntOp::create(builder_, currentLoc_, 0, 32);
+    Value one = arith::ConstantIntOp::create(builder_, currentLoc_, 1, 32);
+    createdOpCallback_(zero.getDefiningOp());
+    createdOpCallback_(one.getDefiningOp());
+    auto loop = scf::ForOp::create(
+        builder_, currentLoc_, zero, one, one, currentIterArgs_,
+        [&](OpBuilder&, Location, Value, ValueRange args) {
+          currentIterArgs_ = args;
+        });
+    createdOpCallback_(loop);
+    loops_.push_back(loop);
+    builder_.setInsertionPointToEnd(loop.getBody());
+    auto body = visitAstNode(node, bodyBuilder);
+    isl_ast_node_free(node);
+    if (failed(body)) {
+      return failure();
+    }
+    if (!body.value().empty()) {
+      builder_.setInsertionPointToEnd(loop.getBody());
+      createdOpCallback_(
+          scf::YieldOp::create(builder_, currentLoc_, body.value()));
+    }
+    return loop;
+  }
+
   auto result = visitAstNode(node, bodyBuilder);
   if (failed(result)) {
     return failure();
-- 
2.43.0


From aa9493d699ba40947652431092632a877038ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 19/90] fix: diagonalize convolution filters with the declared
 matrix size

The bounds of the expanded filter relation are smaller than the matrix when no
window touches the trailing data columns; the diagonals then wrapped with a
different period than the matvec kernel assumes.
---
 lib/Utils/Layout/Convolution.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/Layout/Convolution.cpp b/lib/Utils/Layout/Convolution.cpp
index 6bacdff..0dd2a81 100644
--- a/lib/Utils/Layout/Convolution.cpp
+++ b/lib/Utils/Layout/Convolution.cpp
@@ -454,13 +454,19 @@ FailureOr<presburger::IntegerRelation> getConvFilterDiagonalizedRelation(
     int64_t stride = 1;
     auto filterRelation =
         get1dConvFilterRelation(filterType, dataType, stride, padding);
-    return diagonalize2dMatrix(filterRelation, filterType, minSlotCount);
+    filterRelation.compose(getDiagonalLayoutRelation(
+        get1dConvFilterExpandedType(filterType, dataType, stride, padding),
+        minSlotCount));
+    return filterRelation;
   }
   if (filterType.getRank() != 2) return failure();
   SmallVector<int64_t> strides = {1, 1};
   auto filterRelation =
       get2dConvFilterRelation(filterType, dataType, strides, padding);
-  return diagonalize2dMatrix(filterRelation, filterType, minSlotCount);
+  filterRelation.compose(getDiagonalLayoutRelation(
+      get2dConvFilterExpandedType(filterType, dataType, padding, strides),
+      minSlotCount));
+  return filterRelation;
 }
 
 FailureOr<presburger::IntegerRelation> get1dConvCwFcwFilterDiagonalizedRelation(
@@ -490,7 +496,13 @@ FailureOr<presburger::IntegerRelation> get1dConvCwFcwFilterDiagonalizedRelation(
         /*equality=*/true);
     expandedFilterRelation.compose(rowInterchangeRelation);
   }
-  return diagonalize2dMatrix(expandedFilterRelation, filterType, minSlotCount);
+  // Diagonalize with the declared size of the expanded matrix, which is what
+  // the matvec kernel assumes; the bounds of the relation are smaller when no
+  // window touches the trailing data columns.
+  expandedFilterRelation.compose(getDiagonalLayoutRelation(
+      get1dConvCwFcwFilterExpandedType(filterType, dataType, stride, padding),
+      minSlotCount));
+  return expandedFilterRelation;
 }
 
 FailureOr<std::vector<IntegerRelation>> get2dConvChwFchwFilterAsSequence(
-- 
2.43.0


From bdcb342f3861f538685613a16e62f74ea02579c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 20/90] fix: store-to-load forwarding and dead store removal
 ignored stores, loads and calls that may touch the same element

---
 lib/Transforms/ForwardStoreToLoad/BUILD       |  3 +
 .../ForwardStoreToLoad/ForwardStoreToLoad.cpp | 74 +++++++++++++++----
 2 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/lib/Transforms/ForwardStoreToLoad/BUILD b/lib/Transforms/ForwardStoreToLoad/BUILD
index 51a2309..0aba553 100644
--- a/lib/Transforms/ForwardStoreToLoad/BUILD
+++ b/lib/Transforms/ForwardStoreToLoad/BUILD
@@ -17,12 +17,15 @@ cc_library(
         "@llvm-project//llvm:Support",
         "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:AffineUtils",
+        "@llvm-project//mlir:DialectUtils",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:MemRefDialect",
         "@llvm-project//mlir:Pass",
+        "@llvm-project//mlir:SideEffectInterfaces",
         "@llvm-project//mlir:Support",
         "@llvm-project//mlir:TransformUtils",
         "@llvm-project//mlir:Transforms",
+        "@llvm-project//mlir:ViewLikeInterface",
     ],
 )
 
diff --git a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
index 7e2fa72..cf76432 100644
--- a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
+++ b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
@@ -7,10 +7,13 @@
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"             // from @llvm-project
+#include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/ViewLikeInterface.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 #include "mlir/include/mlir/Support/LogicalResult.h"     // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
@@ -69,6 +72,47 @@ class AffineLoadLowering : public OpRewritePattern<affine::AffineLoadOp> {
   }
 };
 
+// Returns the memref that the given memref is a view of.
+static Value getViewBase(Value memref) {
+  while (auto view = memref.getDefiningOp<ViewLikeOpInterface>()) {
+    memref = view.getViewSource();
+  }
+  return memref;
+}
+
+// Returns true unless the two lists of indices differ in a pair of constants.
+static bool mayBeSameIndices(ValueRange lhs, ValueRange rhs) {
+  for (auto [l, r] : llvm::zip(lhs, rhs)) {
+    auto lhsConst = getConstantIntValue(l);
+    auto rhsConst = getConstantIntValue(r);
+    if (lhsConst && rhsConst && *lhsConst != *rhsConst) return false;
+  }
+  return true;
+}
+
+// Returns true if the op may have the given effect (a read or a write) on the
+// memref at the given indices. Memrefs that are not views of the same memref
+// are assumed not to alias.
+template <typename Effect>
+static bool mayAccess(Operation* op, Value memref, ValueRange indices) {
+  if (isMemoryEffectFree(op)) return false;
+  if (isa<MemoryEffectOpInterface>(op) && !hasEffect<Effect>(op)) return false;
+  Value accessed;
+  ValueRange accessedIndices;
+  if (auto loadOp = dyn_cast<memref::LoadOp>(op)) {
+    accessed = loadOp.getMemRef();
+    accessedIndices = loadOp.getIndices();
+  } else if (auto storeOp = dyn_cast<memref::StoreOp>(op)) {
+    accessed = storeOp.getMemRef();
+    accessedIndices = storeOp.getIndices();
+  }
+  if (accessed == memref) return mayBeSameIndices(accessedIndices, indices);
+  return llvm::any_of(op->getOperands(), [&](Value operand) {
+    return isa<BaseMemRefType>(operand.getType()) &&
+           getViewBase(operand) == getViewBase(memref);
+  });
+}
+
 bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                                memref::LoadOp& loadOp) const {
   if (!dominanceInfo.properlyDominates(potentialStore, loadOp.getOperation())) {
@@ -87,7 +131,8 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
       .Case<memref::StoreOp>([&](auto storeOp) {
         ValueRange storeIndices = storeOp.getIndices();
         ValueRange loadIndices = loadOp.getIndices();
-        if (storeIndices != loadIndices) {
+        if (storeOp.getMemRef() != loadOp.getMemRef() ||
+            storeIndices != loadIndices) {
           LLVM_DEBUG(llvm::dbgs()
                      << "loadOp and store op do not have matching indices\n");
           return false;
@@ -104,13 +149,11 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                        "store and load op\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::StoreOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op stores to the same index\n");
-              return false;
-            }
+          if (mayAccess<MemoryEffects::Write>(currentNode, storeOp.getMemRef(),
+                                              storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may store to the same index\n");
+            return false;
           }
         }
 
@@ -173,7 +216,8 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
       .Case<memref::StoreOp>([&](auto potentialStore) {
         ValueRange storeIndices = storeOp.getIndices();
         ValueRange potentialStoreIndices = potentialStore.getIndices();
-        if (storeIndices != potentialStoreIndices) {
+        if (storeOp.getMemRef() != potentialStore.getMemRef() ||
+            storeIndices != potentialStoreIndices) {
           LLVM_DEBUG(llvm::dbgs()
                      << "store ops do not have matching indices\n");
           return false;
@@ -197,13 +241,11 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
             LLVM_DEBUG(llvm::dbgs() << "an intermediate load op was found\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::LoadOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op loads at the same index\n");
-              return false;
-            }
+          if (mayAccess<MemoryEffects::Read>(currentNode, storeOp.getMemRef(),
+                                             storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may load at the same index\n");
+            return false;
           }
         }
 
-- 
2.43.0


From 891b93f55f33f6efaef425b93c1db19d6ec85f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 21/90] fix: insert-to-extract forwarding skipped inserts at
 indices that may be equal

---
 .../ForwardInsertToExtract/ForwardInsertToExtract.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
index fe33d5e..47c89f1 100644
--- a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
+++ b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
@@ -59,6 +59,17 @@ FailureOr<OpFoldResult> ForwardSingleInsertToExtract::getValueAtIndex(
               return getAsOpFoldResult(insertOp.getScalar());
             }
 
+            // Continue only if the indices are known to differ.
+            bool knownDifferent =
+                llvm::any_of(llvm::zip(insertIndices, indices), [](auto pair) {
+                  auto [insertIndex, index] = pair;
+                  auto insertConst = getConstantIntValue(insertIndex);
+                  auto indexConst = getConstantIntValue(index);
+                  return insertConst && indexConst &&
+                         *insertConst != *indexConst;
+                });
+            if (!knownDifferent) return failure();
+
             LLVM_DEBUG(llvm::dbgs()
                        << "insert and extract op do not have matching "
                           "indices, continuing to defining op\n");
-- 
2.43.0


From 3b05bba672459d12aea64646798ac5eb0a8405bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 22/90] fix: slice forwarding treated slices with dynamic
 offsets as disjoint

---
 .../ForwardInsertSliceToExtractSlice/BUILD          |  1 +
 .../ForwardInsertSliceToExtractSlice.cpp            | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Transforms/ForwardInsertSliceToExtractSlice/BUILD b/lib/Transforms/ForwardInsertSliceToExtractSlice/BUILD
index 5264901..b4b74fa 100644
--- a/lib/Transforms/ForwardInsertSliceToExtractSlice/BUILD
+++ b/lib/Transforms/ForwardInsertSliceToExtractSlice/BUILD
@@ -26,6 +26,7 @@ cc_library(
         "@llvm-project//mlir:TensorDialect",
         "@llvm-project//mlir:TransformUtils",
         "@llvm-project//mlir:Transforms",
+        "@llvm-project//mlir:ViewLikeInterface",
     ],
 )
 
diff --git a/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp b/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp
index 9764772..a7a0338 100644
--- a/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp
+++ b/lib/Transforms/ForwardInsertSliceToExtractSlice/ForwardInsertSliceToExtractSlice.cpp
@@ -18,6 +18,7 @@
 #include "mlir/include/mlir/IR/OpDefinition.h"        // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"        // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"               // from @llvm-project
+#include "mlir/include/mlir/Interfaces/ViewLikeInterface.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"           // from @llvm-project
 #include "mlir/include/mlir/Support/LogicalResult.h"  // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
@@ -53,6 +54,18 @@ FailureOr<OpFoldResult> ForwardSingleInsertSliceToExtractSlice::getValueAtSlice(
                 insertOp.isSameAs(originalExtractOp, isSame))
               return getAsOpFoldResult(insertOp.getSource());
 
+            // Nothing is known about the overlap of dynamic slices.
+            for (OffsetSizeAndStrideOpInterface slice :
+                 {cast<OffsetSizeAndStrideOpInterface>(insertOp.getOperation()),
+                  cast<OffsetSizeAndStrideOpInterface>(
+                      originalExtractOp.getOperation())}) {
+              if (ShapedType::isDynamicShape(slice.getStaticOffsets()) ||
+                  ShapedType::isDynamicShape(slice.getStaticSizes()) ||
+                  ShapedType::isDynamicShape(slice.getStaticStrides()))
+                return rewriter.notifyMatchFailure(
+                    originalExtractOp, "dynamic slices are not handled");
+            }
+
             // If it's exactly disjoint, return the insertion's destination and
             // continue.
             auto insertSliceType =
-- 
2.43.0


From e613d551061217a7c952885df5b004227f6d6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 23/90] fix: extract-loop-body returned the last operation of
 the body instead of the stored value

---
 lib/Transforms/MemrefToArith/ExtractLoopBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
index 1ae5203..6cabe92 100644
--- a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
+++ b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
@@ -144,7 +144,7 @@ void extractLoopBody(AffineForOp loop, unsigned int minimumLoopSize,
 
   auto result = results[0];
   auto finalOp = opsToCopy[opsToCopy.size() - 1];
-  if (finalOp->getNumResults() != 1 && finalOp->getResult(0) != result) {
+  if (finalOp->getNumResults() != 1 || finalOp->getResult(0) != result) {
     loop.emitWarning(
         "expected loop body to terminate with a single final store operation");
     return;
-- 
2.43.0


From 5150cad1f29d66f7a0257b71d862dc3d67fd6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 24/90] fix: absorb a constant into a generic without replacing
 its uses elsewhere

---
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index d6718e7..91896f0 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -811,7 +811,10 @@ void genericAbsorbConstants(secret::GenericOp genericOp,
         Region* operandRegion = definingOp->getParentRegion();
         if (operandRegion && !genericOp.getRegion().isAncestor(operandRegion)) {
           auto* copiedOp = rewriter.clone(*definingOp);
-          rewriter.replaceAllUsesWith(operand, copiedOp->getResults());
+          rewriter.replaceUsesWithIf(
+              operand, copiedOp->getResult(0), [&](OpOperand& use) {
+                return genericOp->isProperAncestor(use.getOwner());
+              });
           // If this was a block argument, additionally remove the block
           // argument.
           if (isGenericBlockArg) {
-- 
2.43.0


From e37ca4bbb75134a9344f83574d4748ec954ba884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 25/90] fix: hoisting an operation after a generic handles
 results yielded twice or not at all

---
 lib/Dialect/Secret/IR/SecretOps.cpp      | 18 ++++++++++--------
 lib/Dialect/Secret/IR/SecretPatterns.cpp |  4 +++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretOps.cpp b/lib/Dialect/Secret/IR/SecretOps.cpp
index fffb224..a295f1e 100644
--- a/lib/Dialect/Secret/IR/SecretOps.cpp
+++ b/lib/Dialect/Secret/IR/SecretOps.cpp
@@ -724,14 +724,16 @@ std::pair<GenericOp, GenericOp> extractOpAfterGeneric(
   });
   // Replace the uses of the single-op split generic op with the previous
   // results.
-  auto extractOpGenericResults =
-      llvm::map_to_vector(opToExtract->getResults(), [&](OpResult v) {
-        auto& yieldUse = *v.getUses().begin();
-        assert(isa<YieldOp>(yieldUse.getOwner()) &&
-               "expected yield to be the only use of the op to extract");
-        return genericOpWithNewYields.getResult(yieldUse.getOperandNumber());
-      });
-  rewriter.replaceAllUsesWith(extractOpGenericResults, newGeneric.getResults());
+  for (auto [oldResult, newResult] :
+       llvm::zip(opToExtract->getResults(), newGeneric.getResults())) {
+    for (OpOperand& yieldUse : oldResult.getUses()) {
+      assert(isa<YieldOp>(yieldUse.getOwner()) &&
+             "expected yields to be the only uses of the op to extract");
+      rewriter.replaceAllUsesWith(
+          genericOpWithNewYields.getResult(yieldUse.getOperandNumber()),
+          newResult);
+    }
+  }
 
   // Once the op is split off into a new generic op, we need to erase
   // the old op and remove its results from the yield op.
diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index 91896f0..8e7d12e 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -595,7 +595,9 @@ bool HoistOpAfterGeneric::canHoist(Operation& op) const {
       opTypes.end();
   bool allUsesAreYields = llvm::all_of(
       op.getUsers(), [&](Operation* user) { return isa<YieldOp>(user); });
-  return inConfiguredList && allUsesAreYields;
+  bool allResultsAreYielded = llvm::none_of(
+      op.getResults(), [&](Value result) { return result.use_empty(); });
+  return inConfiguredList && allUsesAreYields && allResultsAreYielded;
 }
 
 LogicalResult HoistOpAfterGeneric::matchAndRewrite(
-- 
2.43.0


From f98527381b5402787df93d21b0c14a8f6f85df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 26/90] fix: secret-forget-secrets converts secrets carried by
 structured control flow

---
 lib/Dialect/Secret/Transforms/BUILD           |  3 +-
 .../Secret/Transforms/ForgetSecrets.cpp       | 28 ++++++-------------
 2 files changed, 9 insertions(+), 22 deletions(-)

diff --git a/lib/Dialect/Secret/Transforms/BUILD b/lib/Dialect/Secret/Transforms/BUILD
index d0b625c..9f704d8 100644
--- a/lib/Dialect/Secret/Transforms/BUILD
+++ b/lib/Dialect/Secret/Transforms/BUILD
@@ -38,9 +38,8 @@ cc_library(
         "@heir//lib/Utils:ConversionUtils",
         "@heir//lib/Utils:TransformUtils",
         "@llvm-project//llvm:Support",
+        "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:ArithDialect",
-        "@llvm-project//mlir:FuncDialect",
-        "@llvm-project//mlir:FuncTransforms",
         "@llvm-project//mlir:FunctionInterfaces",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:Pass",
diff --git a/lib/Dialect/Secret/Transforms/ForgetSecrets.cpp b/lib/Dialect/Secret/Transforms/ForgetSecrets.cpp
index 8b37c17..f4b94d1 100644
--- a/lib/Dialect/Secret/Transforms/ForgetSecrets.cpp
+++ b/lib/Dialect/Secret/Transforms/ForgetSecrets.cpp
@@ -9,9 +9,8 @@
 #include "lib/Utils/ConversionUtils.h"
 #include "lib/Utils/TransformUtils.h"
 #include "llvm/include/llvm/Support/ErrorHandling.h"    // from @llvm-project
+#include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"   // from @llvm-project
-#include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"  // from @llvm-project
-#include "mlir/include/mlir/Dialect/Func/Transforms/FuncConversions.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Builders.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypes.h"           // from @llvm-project
@@ -30,10 +29,6 @@ namespace secret {
 #define GEN_PASS_DEF_SECRETFORGETSECRETS
 #include "lib/Dialect/Secret/Transforms/Passes.h.inc"
 
-using ::mlir::func::CallOp;
-using ::mlir::func::FuncOp;
-using ::mlir::func::ReturnOp;
-
 static Value materializeSource(OpBuilder& builder, Type type, ValueRange inputs,
                                Location loc) {
   assert(inputs.size() == 1);
@@ -138,24 +133,17 @@ struct ForgetSecrets : impl::SecretForgetSecretsBase<ForgetSecrets> {
     target.addIllegalDialect<SecretDialect>();
     target.addLegalDialect<tensor::TensorDialect>();
     target.addLegalDialect<arith::ArithDialect>();
-    target.addDynamicallyLegalOp<mlir::func::FuncOp>(
-        [&](mlir::func::FuncOp op) {
-          return typeConverter.isSignatureLegal(op.getFunctionType()) &&
-                 typeConverter.isLegal(&op.getBody());
-        });
-    target.addDynamicallyLegalOp<mlir::func::CallOp>(
-        [&](mlir::func::CallOp op) { return typeConverter.isLegal(op); });
-    target.addDynamicallyLegalOp<mlir::func::ReturnOp>(
-        [&](mlir::func::ReturnOp op) { return typeConverter.isLegal(op); });
-
     RewritePatternSet patterns(context);
     patterns
         .add<ConvertGeneric, DropOp<ConcealOp>, DropOp<RevealOp>, ConvertCast>(
             typeConverter, context);
-    populateFunctionOpInterfaceTypeConversionPattern<FuncOp>(patterns,
-                                                             typeConverter);
-    populateReturnOpTypeConversionPattern(patterns, typeConverter);
-    populateCallOpTypeConversionPattern(patterns, typeConverter);
+    // Secrets also flow through functions and structured control flow, whose
+    // results and block arguments have secret types after distribution.
+    addStructuralConversionPatterns(typeConverter, patterns, target);
+    patterns.add<ConvertAny<affine::AffineIfOp>, ConvertAny<arith::SelectOp>>(
+        typeConverter, context);
+    target.addDynamicallyLegalOp<affine::AffineIfOp, arith::SelectOp>(
+        [&](Operation* op) { return typeConverter.isLegal(op); });
 
     ConversionConfig config;
     config.allowPatternRollback = false;
-- 
2.43.0


From 5b40d5c98bcbc3e76e8367b1009a4749596e8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 27/90] fix: distributing a generic through a loop keeps values
 that are used besides initialising it

---
 .../Secret/Transforms/DistributeGeneric.cpp   | 67 ++++++++++++-------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index e454bb8..8046f25 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -428,7 +428,12 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
           ++initIndex;
         }
 
-        if (found) continue;
+        // The loop body may also use the operand's original value, which is
+        // distinct from the iter arg it initializes.
+        bool usedInBody = llvm::any_of(blockArg.getUsers(), [&](Operation* u) {
+          return loop->isProperAncestor(u);
+        });
+        if (found && !usedInBody) continue;
 
         newGenericOperands.push_back(oldGenericOperand.get());
       }
@@ -444,16 +449,16 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
           newGenericOperands, loopResultTypes,
           [&](OpBuilder& b, Location loc, ValueRange blockArguments) {
             IRMapping mp;
-            for (BlockArgument blockArg : genericOp.getBody()->getArguments()) {
-              mp.map(blockArg, blockArguments[blockArg.getArgNumber()]);
-            }
-            for (auto [newInit, operand] : newInitsToOperands) {
-              mp.map(operand, newInit);
-            }
             int index = 0;
             for (Value value : newGenericOperands) {
               mp.map(value, blockArguments[index++]);
             }
+            for (BlockArgument blockArg : genericOp.getBody()->getArguments()) {
+              if (Value newArg = mp.lookupOrNull(
+                      genericOp.getOperand(blockArg.getArgNumber()))) {
+                mp.map(blockArg, newArg);
+              }
+            }
             for (Operation& op : clonedLoopBody.getOperations()) {
               if (&op == &opToDistribute) continue;
 
@@ -469,7 +474,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
             SmallVector<Value, 4> newYieldedValues;
             for (Value oldYieldedValue :
                  clonedLoopBody.getTerminator()->getOperands()) {
-              newYieldedValues.push_back(mp.lookup(oldYieldedValue));
+              newYieldedValues.push_back(mp.lookupOrDefault(oldYieldedValue));
             }
             YieldOp::create(b, loc, newYieldedValues);
           });
@@ -516,7 +521,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
                       yieldedValue) -
             loop->getOpResults().begin();
         // Case 1
-        if (loopResultIndex >= 0) {
+        if (loopResultIndex < (int)loop->getNumResults()) {
           replacements.push_back(clonedLoop->getOpResult(loopResultIndex));
           LLVM_DEBUG(llvm::dbgs() << "replacing value " << yieldedValue
                                   << " with " << replacements.back() << "\n");
@@ -537,6 +542,15 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
                " code path expects a generic with a single operation (a loop) "
                "inside it.");
       }
+      // The generic's results are secret even where the loop keeps a value
+      // public.
+      rewriter.setInsertionPoint(genericOp);
+      for (Value& replacement : replacements) {
+        if (!isa<SecretType>(replacement.getType())) {
+          replacement =
+              ConcealOp::create(rewriter, genericOp.getLoc(), replacement);
+        }
+      }
       rewriter.replaceOp(genericOp, replacements);
 
       LLVM_DEBUG(clonedLoop->getParentOp()->emitRemark()
@@ -997,11 +1011,12 @@ struct MakeNonSecretIterArgsPublic
       if (isa<SecretType>(iterArg.getType())) {
         auto yieldConceal =
             dyn_cast_or_null<ConcealOp>(yieldOpnd.getDefiningOp());
+        auto initConceal = dyn_cast_or_null<ConcealOp>(init.getDefiningOp());
         // The only case that needs checking is if the iter_arg is secret typed,
-        // and the yield operand is the direct result of a conceal op.
-        if (yieldConceal) {
-          auto initConceal = dyn_cast_or_null<ConcealOp>(init.getDefiningOp());
-          newInits.push_back(initConceal ? initConceal.getCleartext() : init);
+        // and both the init and the yield operand are direct results of a
+        // conceal op.
+        if (yieldConceal && initConceal) {
+          newInits.push_back(initConceal.getCleartext());
           wasChanged[i] = true;
           changed = true;
           continue;
@@ -1017,32 +1032,32 @@ struct MakeNonSecretIterArgsPublic
     // order to change its result types due to the way results are laid out in
     // memory in MLIR.
     SmallVector<Type> newResultTypes(op->getResultTypes());
-    for (auto [i, operand] : llvm::enumerate(op.getInitsMutable())) {
+    for (auto [i, newInit] : llvm::enumerate(newInits)) {
       if (wasChanged[i]) {
-        newResultTypes.push_back(newInits[i].getType());
+        newResultTypes[i] = newInit.getType();
       }
     }
 
     IRMapping mp;
-    for (auto [i, operand] : llvm::enumerate(op.getInitsMutable())) {
-      if (wasChanged[i]) {
-        mp.map(operand.get(), newInits[i]);
-      }
-    }
-
     auto* newOp =
         cloneWithNewResultTypes(op.getOperation(), newResultTypes, mp);
+    rewriter.setInsertionPoint(op);
+    rewriter.insert(newOp);
     auto newLoop = cast<LoopLikeOpInterface>(newOp);
 
-    // Next we update the iter_args. In the cloned loop the iter_args may still
-    // be secret when the inits were changed to be non-secret, but we can modify
-    // the op in place to update block arg types.
+    // Next we update the inits and the iter_args. The body still expects secret
+    // iter_args, so conceal them again at its start; later patterns fold the
+    // conceals into the generics that use them.
     for (auto [i, operand] : llvm::enumerate(op.getInitsMutable())) {
       if (wasChanged[i]) {
+        newOp->setOperand(operand.getOperandNumber(), newInits[i]);
         BlockArgument newIterArg = newLoop.getRegionIterArgs()[i];
         newIterArg.setType(newInits[i].getType());
-        BlockArgument oldIterArg = op.getRegionIterArgs()[i];
-        rewriter.replaceAllUsesWith(oldIterArg, newIterArg);
+        rewriter.setInsertionPointToStart(newIterArg.getOwner());
+        auto concealOp =
+            ConcealOp::create(rewriter, op.getLoc(), newIterArg);
+        rewriter.replaceAllUsesExcept(newIterArg, concealOp.getResult(),
+                                      concealOp);
       }
     }
 
-- 
2.43.0


From 2ea56a5de1524cefec8e11f5313224de32b9080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 28/90] fix: copying attributes from a loop's block argument
 reads the operand that initialises it

---
 lib/Utils/AttributeUtils.cpp | 10 +++++++++-
 lib/Utils/BUILD              |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/AttributeUtils.cpp b/lib/Utils/AttributeUtils.cpp
index 7224db7..46d8de0 100644
--- a/lib/Utils/AttributeUtils.cpp
+++ b/lib/Utils/AttributeUtils.cpp
@@ -13,6 +13,7 @@
 #include "mlir/include/mlir/IR/Visitors.h"              // from @llvm-project
 #include "mlir/include/mlir/Interfaces/ControlFlowInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Interfaces/FunctionInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/LoopLikeInterface.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"  // from @llvm-project
 
 namespace mlir {
@@ -371,7 +372,14 @@ void copyDialectAttributes(Value from, Value to) {
       copyFromDict(funcOp.getArgAttrDict(blockArg.getArgNumber()));
     } else if (auto attrOp =
                    dyn_cast<OperandAndResultAttrInterface>(parentOp)) {
-      copyFromDict(attrOp.getOperandAttrDict(blockArg.getArgNumber()));
+      // The block arguments of a loop do not line up with its operands.
+      if (auto loop = dyn_cast<LoopLikeOpInterface>(parentOp)) {
+        if (OpOperand* init = loop.getTiedLoopInit(blockArg)) {
+          copyFromDict(attrOp.getOperandAttrDict(init->getOperandNumber()));
+        }
+      } else {
+        copyFromDict(attrOp.getOperandAttrDict(blockArg.getArgNumber()));
+      }
     }
   } else {
     auto opResult = cast<OpResult>(from);
diff --git a/lib/Utils/BUILD b/lib/Utils/BUILD
index d513faa..bf71846 100644
--- a/lib/Utils/BUILD
+++ b/lib/Utils/BUILD
@@ -65,6 +65,7 @@ cc_library(
         "@llvm-project//mlir:FuncDialect",
         "@llvm-project//mlir:FunctionInterfaces",
         "@llvm-project//mlir:IR",
+        "@llvm-project//mlir:LoopLikeInterface",
         "@llvm-project//mlir:Support",
     ],
 )
-- 
2.43.0


From 2a1552fb96b9fc55ac798f9273fe8e875936d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 29/90] fix: keep operand attributes of a generic aligned when
 adding or removing inputs

---
 lib/Dialect/Secret/IR/SecretOps.cpp            | 18 ++++++++++++++++++
 lib/Dialect/Secret/IR/SecretOps.td             |  8 ++++++++
 lib/Dialect/Secret/IR/SecretPatterns.cpp       |  6 +++---
 .../Secret/Transforms/DistributeGeneric.cpp    |  4 ++--
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretOps.cpp b/lib/Dialect/Secret/IR/SecretOps.cpp
index a295f1e..11c0f60 100644
--- a/lib/Dialect/Secret/IR/SecretOps.cpp
+++ b/lib/Dialect/Secret/IR/SecretOps.cpp
@@ -381,6 +381,24 @@ GenericOp GenericOp::cloneWithNewResultTypes(TypeRange newTypes,
   return newOp;
 }
 
+void GenericOp::appendInputs(ValueRange newInputs) {
+  getInputsMutable().append(newInputs);
+  if (ArrayAttr attrs = getAllOperandAttrsAttr()) {
+    SmallVector<Attribute> newAttrs(attrs.getValue());
+    newAttrs.resize(getNumOperands(), DictionaryAttr::get(getContext()));
+    setOperandAttrsAttr(ArrayAttr::get(getContext(), newAttrs));
+  }
+}
+
+void GenericOp::eraseInput(unsigned index) {
+  getOperation()->eraseOperand(index);
+  if (ArrayAttr attrs = getAllOperandAttrsAttr()) {
+    SmallVector<Attribute> newAttrs(attrs.getValue());
+    newAttrs.erase(newAttrs.begin() + index);
+    setOperandAttrsAttr(ArrayAttr::get(getContext(), newAttrs));
+  }
+}
+
 std::pair<GenericOp, ValueRange> GenericOp::addNewYieldedValues(
     ValueRange newValuesToYield, PatternRewriter& rewriter) {
   YieldOp yieldOp = getYieldOp();
diff --git a/lib/Dialect/Secret/IR/SecretOps.td b/lib/Dialect/Secret/IR/SecretOps.td
index 4b6074b..86137ed 100644
--- a/lib/Dialect/Secret/IR/SecretOps.td
+++ b/lib/Dialect/Secret/IR/SecretOps.td
@@ -211,6 +211,14 @@ def Secret_GenericOp : Secret_Op<"generic", [
     // the generic op.
     std::optional<int> findResultIndex(Value value);
 
+    // Appends inputs to the generic, keeping the operand attributes aligned with
+    // the operands. The caller must add the corresponding block arguments.
+    void appendInputs(ValueRange newInputs);
+
+    // Erases the input at the given index along with its operand attributes. The
+    // caller must erase the corresponding block argument.
+    void eraseInput(unsigned index);
+
     // Clones a generic op and adds new yielded values. Returns the new op and
     // the value range corresponding to the new result values of the generic.
     // Callers can follow this method with something like the following to
diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index 8e7d12e..c0d4d96 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -334,7 +334,7 @@ LogicalResult CaptureAmbientScope::matchAndRewrite(
       return operand.getOwner()->getParentOfType<secret::GenericOp>() ==
              genericOp;
     });
-    genericOp.getInputsMutable().append(value);
+    genericOp.appendInputs(value);
   });
 
   return success();
@@ -779,7 +779,7 @@ LogicalResult ConcealPlaintextInsert::matchAndRewrite(
           }
           return operand.get() == dest;
         });
-        op.getInputsMutable().append(concealedTensor.getResult());
+        op.appendInputs(concealedTensor.getResult());
       });
       return success();
     }
@@ -823,7 +823,7 @@ void genericAbsorbConstants(secret::GenericOp genericOp,
             int index = blockArg.getArgNumber();
             rewriter.modifyOpInPlace(op, [&]() {
               genericOp.getBody()->eraseArgument(index);
-              genericOp.getOperation()->eraseOperand(index);
+              genericOp.eraseInput(index);
             });
           }
         }
diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index 8046f25..b64a526 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -645,7 +645,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
 
           // Otherwise, the operand must be an input to the sourceGeneric,
           // which must be added to the targetGeneric.
-          targetGeneric.getInputsMutable().append(sourceGenericArg);
+          targetGeneric.appendInputs(sourceGenericArg);
           BlockArgument newBlockArg = targetGeneric.getBody()->addArgument(
               operand.get().getType(), targetGeneric.getLoc());
           LLVM_DEBUG(llvm::dbgs() << "Mapping " << operand.get()
@@ -689,7 +689,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
 
     // Finally, add the new targetGeneric results to the sourceGeneric, and
     // replace the opToMove with the new block arguments.
-    sourceGeneric.getInputsMutable().append(newResults);
+    sourceGeneric.appendInputs(newResults);
     SmallVector<Location, 1> newLocs(newResults.size(), sourceGeneric.getLoc());
     auto clearTypes = llvm::to_vector<6>(llvm::map_range(
         newResults.getTypes(),
-- 
2.43.0


From 4e7a7f0d1b9b06e29a5585a00a94a226175d3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 30/90] fix: distributing a generic through a loop separates
 public from secret loop-carried values

---
 .../Secret/Transforms/DistributeGeneric.cpp   | 135 +++++++++++++-----
 1 file changed, 103 insertions(+), 32 deletions(-)

diff --git a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
index b64a526..f50928e 100644
--- a/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
+++ b/lib/Dialect/Secret/Transforms/DistributeGeneric.cpp
@@ -349,25 +349,71 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
       LoopLikeOpInterface clonedLoop =
           dyn_cast<LoopLikeOpInterface>(rewriter.clone(opToDistribute, mp));
 
+      Block& clonedLoopBody = clonedLoop->getRegion(0).getBlocks().front();
+
+      // Visits the ops of the loop body that `value` is computed from, and
+      // returns true if any of their operands satisfies the predicate.
+      auto anyInBackwardSlice = [&](Value value, auto predicate,
+                                    DenseSet<Operation*>& visited) {
+        SmallVector<Value> worklist = {value};
+        while (!worklist.empty()) {
+          Value next = worklist.pop_back_val();
+          if (predicate(next)) return true;
+          Operation* op = next.getDefiningOp();
+          if (!op || op->getBlock() != &clonedLoopBody ||
+              !visited.insert(op).second) {
+            continue;
+          }
+          op->walk([&](Operation* nested) {
+            llvm::append_range(worklist, nested->getOperands());
+          });
+        }
+        return false;
+      };
+
+      // An iter_arg is secret if its init is, if the analysis found it to be,
+      // or if the value it is updated with depends on another secret iter_arg
+      // or on a secret operand of the generic.
+      DenseSet<Value> secretIterArgs;
+      for (auto [i, init, iterArg] :
+           llvm::enumerate(clonedLoop.getInits(),
+                           clonedLoop.getRegionIterArgs())) {
+        if (isa<SecretType>(init.getType()) ||
+            shouldLoopInitBeLiftedToSecret(clonedLoop, i)) {
+          secretIterArgs.insert(iterArg);
+        }
+      }
+      auto isSecretValue = [&](Value value) {
+        auto* genericOperand = genericOp.getOpOperandForBlockArgument(value);
+        return secretIterArgs.contains(value) ||
+               isa<SecretType>(value.getType()) ||
+               (genericOperand &&
+                isa<SecretType>(genericOperand->get().getType()));
+      };
+      bool foundSecret = true;
+      while (foundSecret) {
+        foundSecret = false;
+        for (auto [iterArg, yielded] :
+             llvm::zip(clonedLoop.getRegionIterArgs(),
+                       clonedLoopBody.getTerminator()->getOperands())) {
+          DenseSet<Operation*> visited;
+          if (!secretIterArgs.contains(iterArg) &&
+              anyInBackwardSlice(yielded, isSecretValue, visited)) {
+            secretIterArgs.insert(iterArg);
+            foundSecret = true;
+          }
+        }
+      }
+
       // Update the cloned loop's iter_args to be secret types if corresponded
       // to secret types in the original generic.
       DenseMap<Value, Value> newInitsToOperands;
 
       for (const auto& [operand, blockArg] : llvm::zip(
                clonedLoop.getInitsMutable(), clonedLoop.getRegionIterArgs())) {
-        BlockArgument iterArg = clonedLoop.getTiedLoopRegionIterArg(&operand);
-        // The index of the iterArg to pass to shouldLoopInitBeLiftedToSecret
-        // must account for the induction variables additionally passed to the
-        // loop as block arguments.
-        auto inductionVars = clonedLoop.getLoopInductionVars();
-        size_t numInductionVars =
-            inductionVars.has_value() ? inductionVars.value().size() : 0;
-        size_t initIndex = iterArg.getArgNumber() - numInductionVars;
-
         if (isa<SecretType>(operand.get().getType())) {
           blockArg.setType(operand.get().getType());
-        } else if (shouldLoopInitBeLiftedToSecret(clonedLoop, initIndex) &&
-                   !isa<SecretType>(operand.get().getType())) {
+        } else if (secretIterArgs.contains(blockArg)) {
           // The initial value of an iter_arg yielded by the original loop must
           // be promoted to a secret and added to the new generic's operands if
           // the loop was yielding a secret value.
@@ -386,11 +432,31 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
                  << "after cloning loop before generic "
                     "(expected type conflicts here)");
 
-      Block& clonedLoopBody = clonedLoop->getRegion(0).getBlocks().front();
-      rewriter.setInsertionPoint(&clonedLoopBody.getOperations().front());
+      rewriter.setInsertionPoint(clonedLoopBody.getTerminator());
+
+      // The ops computing values for iter args that stay public cannot move
+      // into the generic, whose results are all secret.
+      DenseSet<Operation*> publicOps;
+      for (auto [iterArg, yielded] :
+           llvm::zip(clonedLoop.getRegionIterArgs(),
+                     clonedLoopBody.getTerminator()->getOperands())) {
+        if (isa<SecretType>(iterArg.getType())) continue;
+        anyInBackwardSlice(
+            yielded, [](Value) { return false; }, publicOps);
+      }
+      for (Operation* publicOp : publicOps) {
+        publicOp->walk([&](Operation* nested) {
+          for (OpOperand& operand : nested->getOpOperands()) {
+            if (auto* genericOperand =
+                    genericOp.getOpOperandForBlockArgument(operand.get())) {
+              operand.set(genericOperand->get());
+            }
+          }
+        });
+      }
 
       // The secret generic is replacing the loop body, which means its
-      // outputs must correspond exactly to the loop's yielded values.
+      // outputs must correspond exactly to the loop's secret yielded values.
       //
       // It is possible that the yield was yielding, say, a memref that the
       // loop body modified. In this case, we need to trace that back to a
@@ -402,8 +468,6 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
         BlockArgument iterArg = clonedLoop.getRegionIterArgs()[i];
         if (isa<SecretType>(iterArg.getType())) {
           loopResultTypes.push_back(SecretType::get(resultType));
-        } else {
-          loopResultTypes.push_back(resultType);
         }
       }
 
@@ -465,6 +529,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
               // This ensures that the loop terminator isn't added to the body
               // of the generic, and that it is not erased.
               if (op.hasTrait<OpTrait::IsTerminator>()) continue;
+              if (publicOps.contains(&op)) continue;
 
               LLVM_DEBUG(llvm::dbgs() << "Cloning " << op.getName() << "\n");
               b.clone(op, mp);
@@ -472,8 +537,10 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
             }
 
             SmallVector<Value, 4> newYieldedValues;
-            for (Value oldYieldedValue :
-                 clonedLoopBody.getTerminator()->getOperands()) {
+            for (auto [iterArg, oldYieldedValue] :
+                 llvm::zip(clonedLoop.getRegionIterArgs(),
+                           clonedLoopBody.getTerminator()->getOperands())) {
+              if (!isa<SecretType>(iterArg.getType())) continue;
               newYieldedValues.push_back(mp.lookupOrDefault(oldYieldedValue));
             }
             YieldOp::create(b, loc, newYieldedValues);
@@ -490,7 +557,17 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
       // This should not introduce a type conflict because we ensured that the
       // generic yielded the cleartext analogue of what the original
       // terminator yielded.
-      clonedLoopTerminator->setOperands(newGenericOp.getResults());
+      int genericResultIndex = 0;
+      for (auto [iterArg, yielded] :
+           llvm::zip(clonedLoop.getRegionIterArgs(),
+                     clonedLoopTerminator->getOpOperands())) {
+        if (isa<SecretType>(iterArg.getType())) {
+          yielded.set(newGenericOp.getResult(genericResultIndex++));
+        } else if (auto* genericOperand =
+                       genericOp.getOpOperandForBlockArgument(yielded.get())) {
+          yielded.set(genericOperand->get());
+        }
+      }
       for (auto [yieldType, resultVal] :
            llvm::zip(clonedLoopTerminator->getOperandTypes(),
                      clonedLoop->getOpResults())) {
@@ -513,7 +590,7 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
       // which case we need to find the original secret operand and replace
       // with that. In this case we're assuming there is only one op in the
       // generic body (the loop), so another yielded value must be a block
-      // argument.
+      // argument or a value defined outside of the generic.
       SmallVector<Value> replacements;
       for (Value yieldedValue : genericOp.getYieldOp().getValues()) {
         int loopResultIndex =
@@ -529,18 +606,12 @@ struct SplitGeneric : public OpRewritePattern<GenericOp> {
         }
 
         // Case 2
-        if (isa<BlockArgument>(yieldedValue)) {
-          replacements.push_back(genericOp.getOperand(
-              cast<BlockArgument>(yieldedValue).getArgNumber()));
-          LLVM_DEBUG(llvm::dbgs() << "replacing value " << yieldedValue
-                                  << " with " << replacements.back() << "\n");
-          continue;
-        }
-
-        assert(false &&
-               "Expected a loop result or a block argument, since this"
-               " code path expects a generic with a single operation (a loop) "
-               "inside it.");
+        auto* genericOperand =
+            genericOp.getOpOperandForBlockArgument(yieldedValue);
+        replacements.push_back(genericOperand ? genericOperand->get()
+                                              : yieldedValue);
+        LLVM_DEBUG(llvm::dbgs() << "replacing value " << yieldedValue
+                                << " with " << replacements.back() << "\n");
       }
       // The generic's results are secret even where the loop keeps a value
       // public.
-- 
2.43.0


From d6a171e461aba102670d3a188a52f67d27f2b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 31/90] fix: do not hoist a memory access over a conflicting
 one

---
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 40 ++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index c0d4d96..2d5ab2f 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -549,6 +549,31 @@ LogicalResult DedupeYieldedValues::matchAndRewrite(
   return success();
 }
 
+// Returns whether two memory operations cannot be reordered. Memrefs that are
+// distinct operands of the enclosing generic are assumed not to alias.
+static bool mayConflict(Operation& op, Operation& other, GenericOp genericOp) {
+  if (isMemoryEffectFree(&op) || isMemoryEffectFree(&other)) return false;
+  auto writes = [](Operation& o) {
+    return !hasSingleEffect<MemoryEffects::Read>(&o);
+  };
+  if (!writes(op) && !writes(other)) return false;
+  auto getMemref = [&](Operation& o) -> Value {
+    Value memref =
+        llvm::TypeSwitch<Operation*, Value>(&o)
+            .Case<memref::LoadOp, memref::StoreOp>(
+                [](auto access) -> Value { return access.getMemref(); })
+            .Case<affine::AffineLoadOp, affine::AffineStoreOp>(
+                [](auto access) -> Value { return access.getMemRef(); })
+            .Default([](Operation*) -> Value { return nullptr; });
+    if (!memref) return nullptr;
+    auto* genericOperand = genericOp.getOpOperandForBlockArgument(memref);
+    return genericOperand ? genericOperand->get() : memref;
+  };
+  Value memref = getMemref(op);
+  Value otherMemref = getMemref(other);
+  return !memref || !otherMemref || memref == otherMemref;
+}
+
 bool HoistOpBeforeGeneric::canHoist(Operation& op, GenericOp genericOp) const {
   bool inConfiguredList =
       std::find(opTypes.begin(), opTypes.end(), op.getName().getStringRef()) !=
@@ -563,7 +588,11 @@ bool HoistOpBeforeGeneric::canHoist(Operation& op, GenericOp genericOp) const {
         }
         return operand.getDefiningOp()->getBlock() != op.getBlock();
       });
-  return inConfiguredList && allOperandsAreBlockArgsOrAmbient;
+  bool conflictsWithEarlierOp = llvm::any_of(
+      llvm::make_range(op.getBlock()->begin(), op.getIterator()),
+      [&](Operation& earlier) { return mayConflict(op, earlier, genericOp); });
+  return inConfiguredList && allOperandsAreBlockArgsOrAmbient &&
+         !conflictsWithEarlierOp;
 }
 
 LogicalResult HoistOpBeforeGeneric::matchAndRewrite(
@@ -597,7 +626,14 @@ bool HoistOpAfterGeneric::canHoist(Operation& op) const {
       op.getUsers(), [&](Operation* user) { return isa<YieldOp>(user); });
   bool allResultsAreYielded = llvm::none_of(
       op.getResults(), [&](Value result) { return result.use_empty(); });
-  return inConfiguredList && allUsesAreYields && allResultsAreYielded;
+  auto genericOp = cast<GenericOp>(op.getParentOp());
+  bool conflictsWithLaterOp = llvm::any_of(
+      llvm::make_range(std::next(op.getIterator()), op.getBlock()->end()),
+      [&](Operation& later) {
+        return !isa<YieldOp>(later) && mayConflict(op, later, genericOp);
+      });
+  return inConfiguredList && allUsesAreYields && allResultsAreYielded &&
+         !conflictsWithLaterOp;
 }
 
 LogicalResult HoistOpAfterGeneric::matchAndRewrite(
-- 
2.43.0


From 0bc85fb7163b6cf4b6dd66a8cff2c1823e65f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 32/90] fix: give extracted generic bodies unique, reproducible
 names

---
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index 2d5ab2f..252db1a 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -926,8 +926,11 @@ LogicalResult extractGenericBody(secret::GenericOp genericOp,
   OpBuilder builder(module);
   builder.setInsertionPoint(genericOp->getParentOfType<func::FuncOp>());
   auto type = builder.getFunctionType(inputTypes, resultTypes);
-  std::string funcName = llvm::formatv(
-      "internal_generic_{0}", mlir::hash_value(yieldOp.getValues()[0]));
+  std::string funcName;
+  int counter = 0;
+  do {
+    funcName = llvm::formatv("internal_generic_{0}", counter++);
+  } while (module.lookupSymbol(funcName));
   auto func = func::FuncOp::create(builder, module.getLoc(), funcName, type);
   func.setPrivate();
 
-- 
2.43.0


From a7b661bf09b7fa10394ae092d214b018bc6bc81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 33/90] fix: capturing an index of an affine access keeps the
 access map and converts every access

---
 lib/Dialect/Secret/IR/BUILD              |  2 +-
 lib/Dialect/Secret/IR/SecretPatterns.cpp | 82 +++++++++++-------------
 2 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/lib/Dialect/Secret/IR/BUILD b/lib/Dialect/Secret/IR/BUILD
index 0b818c3..eda6f58 100644
--- a/lib/Dialect/Secret/IR/BUILD
+++ b/lib/Dialect/Secret/IR/BUILD
@@ -56,8 +56,8 @@ cc_library(
         "@heir//lib/Utils",
         "@heir//lib/Utils:AttributeUtils",
         "@llvm-project//llvm:Support",
-        "@llvm-project//mlir:AffineAnalysis",
         "@llvm-project//mlir:AffineDialect",
+        "@llvm-project//mlir:AffineUtils",
         "@llvm-project//mlir:ArithDialect",
         "@llvm-project//mlir:ControlFlowInterfaces",
         "@llvm-project//mlir:FuncDialect",
diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index 252db1a..fe3615d 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -18,15 +18,13 @@
 #include "llvm/include/llvm/Support/Casting.h"         // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"           // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
-#include "mlir/include/mlir/Dialect/Affine/Analysis/AffineAnalysis.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
-#include "mlir/include/mlir/Dialect/Affine/IR/AffineValueMap.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"   // from @llvm-project
 #include "mlir/include/mlir/Dialect/Linalg/IR/Linalg.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"  // from @llvm-project
-#include "mlir/include/mlir/IR/AffineExpr.h"             // from @llvm-project
 #include "mlir/include/mlir/IR/Attributes.h"             // from @llvm-project
 #include "mlir/include/mlir/IR/Block.h"                  // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributes.h"      // from @llvm-project
@@ -70,25 +68,14 @@ bool isConstantGlobal(Operation* op) {
   return isa<DenseElementsAttr>(global.getConstantInitValue());
 }
 
-llvm::SmallVector<Value> buildResolvedIndices(Operation* op,
-                                              OperandRange opIndices,
+// Materializes the indices an affine load or store computes with its map.
+template <typename AffineAccessOp>
+llvm::SmallVector<Value> buildResolvedIndices(AffineAccessOp op,
                                               PatternRewriter& rewriter) {
-  affine::MemRefAccess access(op);
-  affine::AffineValueMap thisMap;
-  access.getAccessMap(&thisMap);
-  llvm::SmallVector<Value> indices;
-  auto indicesIt = opIndices.begin();
-  for (unsigned i = 0; i < access.getRank(); ++i) {
-    auto affineValue = thisMap.getResult(i);
-    if (affineValue.getKind() == AffineExprKind::Constant) {
-      indices.push_back(arith::ConstantIndexOp::create(
-          rewriter, op->getLoc(),
-          cast<AffineConstantExpr>(affineValue).getValue()));
-    } else {
-      indices.push_back(*(indicesIt++));
-    }
-  }
-  return indices;
+  auto indices = affine::expandAffineMap(
+      rewriter, op->getLoc(), op.getAffineMap(), op.getMapOperands());
+  assert(indices && "affine map of a memory access must be expandable");
+  return llvm::to_vector(*indices);
 }
 
 bool isCallToPackingHelper(Operation* op) {
@@ -293,29 +280,6 @@ LogicalResult CaptureAmbientScope::matchAndRewrite(
       Region* operandRegion = operand.getParentRegion();
       if (operandRegion && !genericOp.getRegion().isAncestor(operandRegion)) {
         foundValue = operand;
-        // If this is an index operand of an affine operation, update to memref
-        // ops. Affine dimensions must be block arguments for affine.for or
-        // affine.parallel.
-        if (isa<IndexType>(operand.getType())) {
-          auto point = rewriter.saveInsertionPoint();
-          rewriter.setInsertionPointAfter(op);
-          llvm::TypeSwitch<Operation*>(op)
-              .Case<affine::AffineLoadOp>([&](affine::AffineLoadOp op) {
-                rewriter.replaceOp(
-                    op,
-                    memref::LoadOp::create(
-                        rewriter, op->getLoc(), op.getMemref(),
-                        buildResolvedIndices(op, op.getIndices(), rewriter)));
-              })
-              .Case<affine::AffineStoreOp>([&](affine::AffineStoreOp op) {
-                rewriter.replaceOp(op, memref::StoreOp::create(
-                                           rewriter, op->getLoc(),
-                                           op.getValueToStore(), op.getMemref(),
-                                           buildResolvedIndices(
-                                               op, op.getIndices(), rewriter)));
-              });
-          rewriter.restoreInsertionPoint(point);
-        }
         return WalkResult::interrupt();
       }
     }
@@ -327,6 +291,36 @@ LogicalResult CaptureAmbientScope::matchAndRewrite(
   }
 
   Value value = foundValue;
+  // If this is an index operand of affine operations, update them to memref
+  // ops. Affine dimensions must be block arguments for affine.for or
+  // affine.parallel.
+  if (isa<IndexType>(value.getType())) {
+    SmallVector<Operation*> affineUsers;
+    genericOp.getBody()->walk([&](Operation* op) {
+      if (isa<affine::AffineLoadOp, affine::AffineStoreOp>(op) &&
+          llvm::is_contained(op->getOperands(), value)) {
+        affineUsers.push_back(op);
+      }
+    });
+    for (Operation* user : affineUsers) {
+      rewriter.setInsertionPoint(user);
+      llvm::TypeSwitch<Operation*>(user)
+          .Case<affine::AffineLoadOp>([&](affine::AffineLoadOp op) {
+            rewriter.replaceOp(
+                op, memref::LoadOp::create(
+                        rewriter, op->getLoc(), op.getMemref(),
+                        buildResolvedIndices(op, rewriter)));
+          })
+          .Case<affine::AffineStoreOp>([&](affine::AffineStoreOp op) {
+            rewriter.replaceOp(
+                op, memref::StoreOp::create(
+                        rewriter, op->getLoc(), op.getValueToStore(),
+                        op.getMemref(),
+                        buildResolvedIndices(op, rewriter)));
+          });
+    }
+  }
+
   rewriter.modifyOpInPlace(genericOp, [&]() {
     BlockArgument newArg =
         genericOp.getBody()->addArgument(value.getType(), genericOp.getLoc());
-- 
2.43.0


From 12505afaa3d04ea5a3ce5d0b81edefbe5da29456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 34/90] fix: rotate-and-reduce sums every element when the
 count is not a power of two

---
 lib/Kernel/KernelImplementation.h | 23 +++++++++++++++++++++++
 lib/Utils/RotationUtils.h         |  9 +++++++++
 2 files changed, 32 insertions(+)

diff --git a/lib/Kernel/KernelImplementation.h b/lib/Kernel/KernelImplementation.h
index f5d06b5..1dbfc58 100644
--- a/lib/Kernel/KernelImplementation.h
+++ b/lib/Kernel/KernelImplementation.h
@@ -78,6 +78,24 @@ implementRotateAndReduceAccumulation(
     std::shared_ptr<ArithmeticDagNode<T>> vectorDag, int64_t period,
     int64_t steps, DagReducer<T> reduceFunc) {
   using NodeTy = ArithmeticDagNode<T>;
+  if (steps > 0 && (steps & (steps - 1)) != 0) {
+    // Double the number of reduced rotations for each bit of steps, adding one
+    // more rotation of the original vector when the bit is set.
+    auto base = vectorDag;
+    int64_t reducedSteps = 1;
+    for (int bit = static_cast<int>(std::log2(steps)) - 1; bit >= 0; --bit) {
+      vectorDag = reduceFunc(
+          vectorDag, NodeTy::leftRotate(vectorDag, reducedSteps * period));
+      reducedSteps *= 2;
+      if ((steps >> bit) & 1) {
+        vectorDag = reduceFunc(
+            vectorDag, NodeTy::leftRotate(base, reducedSteps * period));
+        ++reducedSteps;
+      }
+    }
+    return vectorDag;
+  }
+
   for (int64_t shiftSize = steps / 2; shiftSize > 0; shiftSize /= 2) {
     auto rotated = NodeTy::leftRotate(vectorDag, shiftSize * period);
     auto reduced = reduceFunc(vectorDag, rotated);
@@ -106,6 +124,11 @@ implementRotateAndReduceAccumulationRolled(
   using NodeTy = ArithmeticDagNode<T>;
   using NodePtr = std::shared_ptr<NodeTy>;
 
+  // The loop halves the shift each iteration, so it needs a power of two.
+  if (steps > 0 && (steps & (steps - 1)) != 0) {
+    return implementRotateAndReduceAccumulation<T>(vectorDag, period, steps,
+                                                   reduceFunc);
+  }
   int64_t numIterations = static_cast<int64_t>(std::log2(steps));
   if (numIterations <= 0) return vectorDag;
 
diff --git a/lib/Utils/RotationUtils.h b/lib/Utils/RotationUtils.h
index 96079cb..fc4d65f 100644
--- a/lib/Utils/RotationUtils.h
+++ b/lib/Utils/RotationUtils.h
@@ -64,6 +64,15 @@ inline llvm::DenseSet<int64_t> rotateAndReduceRotationIndices(
   llvm::DenseSet<int64_t> result;
   if (!hasPlaintexts) {
     // Matches implementRotateAndReduceAccumulation
+    if (steps > 0 && (steps & (steps - 1)) != 0) {
+      int64_t reducedSteps = 1;
+      for (int bit = static_cast<int>(std::log2(steps)) - 1; bit >= 0; --bit) {
+        result.insert(reducedSteps * period);
+        reducedSteps *= 2;
+        if ((steps >> bit) & 1) result.insert(reducedSteps++ * period);
+      }
+      return result;
+    }
     for (int64_t shiftSize = steps / 2; shiftSize > 0; shiftSize /= 2) {
       result.insert(shiftSize * period);
     }
-- 
2.43.0


From 29aead3f0cd251e1e3ca54207d1b79d0184080ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 35/90] fix: fold a matvec input conversion only when the
 vector fills the ciphertext

---
 lib/Transforms/LayoutOptimization/Patterns.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Transforms/LayoutOptimization/Patterns.cpp b/lib/Transforms/LayoutOptimization/Patterns.cpp
index dacff90..aa112e3 100644
--- a/lib/Transforms/LayoutOptimization/Patterns.cpp
+++ b/lib/Transforms/LayoutOptimization/Patterns.cpp
@@ -118,7 +118,9 @@ LogicalResult FoldMatvecInputConversionIntoPlaintext::matchAndRewrite(
   const auto& toRelation = toLayout.getIntegerRelation();
   auto ciphertextSize = toRelation.getConstantBoundOnDimSize64(
       toRelation.getVarKindOffset(presburger::VarKind::Range) + 1);
-  if (!ciphertextSize ||
+  // The permutation must fill the ciphertext: the kernel rotates the vector, so
+  // it would otherwise read slots outside of the permuted vector.
+  if (!ciphertextSize || vectorType.getNumElements() != *ciphertextSize ||
       !isRelationRowMajor(vectorType, *ciphertextSize, toRelation) ||
       !isRelationSquatDiagonal(matrixType, *ciphertextSize,
                                matrixLayout.getIntegerRelation()) ||
-- 
2.43.0


From acef120000f9a20e76b0704a1a3a2fb274290394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 36/90] fix: hoist a layout conversion through a matvec only
 when it is a rotation

---
 .../LayoutOptimization/InterfaceImpl.cpp      | 19 ++++++++
 lib/Utils/Layout/Hoisting.cpp                 | 43 +++++++++++++++++++
 lib/Utils/Layout/Hoisting.h                   |  5 +++
 3 files changed, 67 insertions(+)

diff --git a/lib/Transforms/LayoutOptimization/InterfaceImpl.cpp b/lib/Transforms/LayoutOptimization/InterfaceImpl.cpp
index 7dcfd77..0dff3d4 100644
--- a/lib/Transforms/LayoutOptimization/InterfaceImpl.cpp
+++ b/lib/Transforms/LayoutOptimization/InterfaceImpl.cpp
@@ -315,6 +315,21 @@ Hoister createPadHoister(tensor::PadOp op) {
   };
 }
 
+// The matvec kernels rotate the packed vector, so its packing may only change
+// by a rotation, and the input and output have to change by the same one.
+static bool canRotateMatvec(Value inputVector, LayoutAttr fromLayout,
+                            LayoutAttr toLayout) {
+  FailureOr<Attribute> inputLayoutRes =
+      findAttributeAssociatedWith(inputVector, kLayoutAttrName);
+  if (failed(inputLayoutRes)) return false;
+  auto inputLayout = dyn_cast<LayoutAttr>(inputLayoutRes.value());
+  return inputLayout &&
+         isRelationEqual(inputLayout.getIntegerRelation(),
+                         fromLayout.getIntegerRelation()) &&
+         isSlotRotation(fromLayout.getIntegerRelation(),
+                        toLayout.getIntegerRelation());
+}
+
 Hoister createPrecomposingMatvecHoister(linalg::MatvecOp op) {
   return [op](ConvertLayoutOp convertLayoutOp) -> llvm::FailureOr<HoistResult> {
     HoistResult result;
@@ -322,6 +337,8 @@ Hoister createPrecomposingMatvecHoister(linalg::MatvecOp op) {
     auto toLayout = dyn_cast<LayoutAttr>(convertLayoutOp.getToLayout());
 
     if (!fromLayout || !toLayout) return failure();
+    if (!canRotateMatvec(op->getOperand(1), fromLayout, toLayout))
+      return failure();
 
     // Operand order for Matvec op is:
     //
@@ -364,6 +381,8 @@ Hoister createPrecomposingConv1dHoister(linalg::Conv1DOp op) {
     auto toLayout = dyn_cast<LayoutAttr>(convertLayoutOp.getToLayout());
 
     if (!fromLayout || !toLayout) return failure();
+    if (!canRotateMatvec(op->getOperand(0), fromLayout, toLayout))
+      return failure();
 
     // Operand order for Conv_1d op is:
     //
diff --git a/lib/Utils/Layout/Hoisting.cpp b/lib/Utils/Layout/Hoisting.cpp
index 3730078..abce8ef 100644
--- a/lib/Utils/Layout/Hoisting.cpp
+++ b/lib/Utils/Layout/Hoisting.cpp
@@ -3,6 +3,9 @@
 #include <cassert>
 #include <cstdint>
 #include <optional>
+#include <set>
+#include <utility>
+#include <vector>
 
 #include "lib/Utils/Layout/IslConversion.h"
 #include "lib/Utils/Layout/Utils.h"
@@ -23,6 +26,46 @@ using presburger::IntegerRelation;
 using presburger::PresburgerSpace;
 using presburger::VarKind;
 
+bool isSlotRotation(const IntegerRelation& fromVecLayout,
+                    const IntegerRelation& toVecLayout) {
+  if (fromVecLayout.getNumDomainVars() != toVecLayout.getNumDomainVars() ||
+      fromVecLayout.getNumRangeVars() != 2 ||
+      toVecLayout.getNumRangeVars() != 2)
+    return false;
+  unsigned slotPos = fromVecLayout.getVarKindOffset(VarKind::Range) + 1;
+  std::optional<int64_t> fromMaxSlot =
+      fromVecLayout.getConstantBound64(BoundType::UB, slotPos);
+  std::optional<int64_t> toMaxSlot =
+      toVecLayout.getConstantBound64(BoundType::UB, slotPos);
+  if (!fromMaxSlot || !toMaxSlot || *fromMaxSlot != *toMaxSlot) return false;
+  int64_t numSlots = *fromMaxSlot + 1;
+
+  PointPairCollector fromPoints(fromVecLayout.getNumDomainVars(),
+                                /*rangeDims=*/2);
+  PointPairCollector toPoints(toVecLayout.getNumDomainVars(), /*rangeDims=*/2);
+  enumeratePoints(fromVecLayout, fromPoints);
+  enumeratePoints(toVecLayout, toPoints);
+  if (fromPoints.points.empty() ||
+      fromPoints.points.size() != toPoints.points.size())
+    return false;
+  std::set<std::pair<std::vector<int64_t>, std::vector<int64_t>>> target(
+      toPoints.points.begin(), toPoints.points.end());
+
+  auto isRotationBy = [&](int64_t shift) {
+    return llvm::all_of(fromPoints.points, [&](const auto& point) {
+      int64_t slot = (point.second[1] + shift) % numSlots;
+      return target.count({point.first, {point.second[0], slot}}) > 0;
+    });
+  };
+  // The rotation is determined by where the first point goes.
+  const auto& [element, origin] = fromPoints.points.front();
+  for (const auto& [other, slot] : target) {
+    if (other != element) continue;
+    if (isRotationBy((slot[1] - origin[1] + numSlots) % numSlots)) return true;
+  }
+  return false;
+}
+
 presburger::IntegerRelation hoistConversionThroughMatvec(
     const IntegerRelation& matrixLayout, const IntegerRelation& fromVecLayout,
     const IntegerRelation& toVecLayout) {
diff --git a/lib/Utils/Layout/Hoisting.h b/lib/Utils/Layout/Hoisting.h
index 546b092..c98fade 100644
--- a/lib/Utils/Layout/Hoisting.h
+++ b/lib/Utils/Layout/Hoisting.h
@@ -10,6 +10,11 @@
 namespace mlir {
 namespace heir {
 
+// Returns true if converting between the two vector layouts rotates the slots
+// of a single ciphertext by a constant amount.
+bool isSlotRotation(const presburger::IntegerRelation& fromVecLayout,
+                    const presburger::IntegerRelation& toVecLayout);
+
 // Hoist the conversion of a vector layout through a matrix-vector multiply
 // operation.
 //
-- 
2.43.0


From 213172ef8c812e500e0422fb73db454cfaa06fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 37/90] fix: fail on an unsupported insert_slice instead of
 asserting

---
 lib/Utils/Layout/Hoisting.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Layout/Hoisting.cpp b/lib/Utils/Layout/Hoisting.cpp
index abce8ef..cd50aa0 100644
--- a/lib/Utils/Layout/Hoisting.cpp
+++ b/lib/Utils/Layout/Hoisting.cpp
@@ -134,7 +134,7 @@ FailureOr<presburger::IntegerRelation> pushSliceLayoutThroughInsertSlice(
   for (auto [idx, size] : llvm::enumerate(insertSliceSizes)) {
     if (size != 1) {
       // Non-unit sizes must equal the input slice.
-      assert(size == resultShape[idx]);
+      if (size != resultShape[idx]) return failure();
       continue;
     }
     // We have a unit dimension. If the unit dimension matches with an output
-- 
2.43.0


From 796c0ed9b7d0b14b7b723fc413ab764f8e3c8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 38/90] fix: reject matmuls that do not fit and pick the secret
 operand of a bicyclic matmul

---
 .../ConvertToCiphertextSemantics.cpp          | 66 ++++++++++++-------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index 5fb74d9..d102dd1 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -2779,7 +2779,7 @@ struct ConvertLinalgMatmul
   // the kernel is a BSGS rotate-and-reduce of the secret operand over n steps,
   // with rotation period m (the secret lhs's packed row count) or p (the secret
   // rhs's packed column count).
-  void bicyclicDiagonalKernel(
+  LogicalResult bicyclicDiagonalKernel(
       linalg::MatmulOp op, OpAdaptor adaptor,
       ContextAwareConversionPatternRewriter& rewriter) const {
     LLVM_DEBUG(llvm::dbgs()
@@ -2787,19 +2787,12 @@ struct ConvertLinalgMatmul
                   "kernel: "
                << op << "\n");
 
-    // Determine if the lhs or rhs is the secret operand.
-    bool secretLhs = false;
-    auto genericOp = op->getParentOfType<secret::GenericOp>();
-    if (genericOp) {
-      if (auto blockArg = dyn_cast<BlockArgument>(op.getInputs()[0])) {
-        if (blockArg.getArgNumber() < genericOp.getNumOperands()) {
-          auto opArg = genericOp.getOperand(blockArg.getArgNumber());
-          if (isa<secret::SecretType>(opArg.getType())) {
-            secretLhs = true;
-          }
-        }
-      }
-    }
+    // The secret operand is packed in one ciphertext, and the cleartext operand
+    // in one plaintext per summation step. With a single step the choice makes
+    // no difference.
+    bool secretLhs =
+        cast<RankedTensorType>(adaptor.getInputs()[0].getType())
+            .getDimSize(0) == 1;
 
     TypedValue<RankedTensorType> ct = cast<TypedValue<RankedTensorType>>(
         adaptor.getInputs()[secretLhs ? 0 : 1]);
@@ -2811,6 +2804,12 @@ struct ConvertLinalgMatmul
     auto lhsType = cast<RankedTensorType>(op.getInputs()[0].getType());
     auto rhsType = cast<RankedTensorType>(op.getInputs()[1].getType());
     auto secretType = ct.getType();
+    if (secretType.getDimSize(0) != 1 ||
+        secretType != adaptor.getOutputs()[0].getType()) {
+      return op.emitError(
+          "bicyclic matmul needs the secret matrix and the result in one "
+          "ciphertext each");
+    }
 
     auto dagType = kernel::mlirTypeToDagType(secretType);
     int64_t period = secretLhs ? lhsType.getDimSize(0) : rhsType.getDimSize(1);
@@ -2855,11 +2854,15 @@ struct ConvertLinalgMatmul
     int64_t validPrefix = ctSemanticResultType.getDimSize(1) - reach;
     LLVM_DEBUG(llvm::dbgs() << "Bicyclic diagonal matmul valid prefix: "
                             << validPrefix << "\n");
+    if (validPrefix < dataSemanticResultType.getNumElements()) {
+      return op.emitError("ciphertexts have too few slots for bicyclic matmul");
+    }
     Operation* replicated = replicateValidPrefixOfResult(
         b, addBias->getResult(0), layoutAttr,
         dataSemanticResultType.getNumElements(), validPrefix);
     setMaterializedAttr(replicated);
     rewriter.replaceOp(op, replicated);
+    return success();
   }
 
   bool supportsBicyclic(linalg::MatmulOp op, OpAdaptor adaptor) const {
@@ -2868,8 +2871,9 @@ struct ConvertLinalgMatmul
     return kernelAttr && kernelAttr.getName() == KernelName::MatmulBicyclic;
   }
 
-  void bicyclicKernel(linalg::MatmulOp op, OpAdaptor adaptor,
-                      ContextAwareConversionPatternRewriter& rewriter) const {
+  LogicalResult bicyclicKernel(
+      linalg::MatmulOp op, OpAdaptor adaptor,
+      ContextAwareConversionPatternRewriter& rewriter) const {
     LLVM_DEBUG(llvm::dbgs()
                << "Converting linalg.matmul op with bicyclic kernel: " << op
                << "\n");
@@ -2880,6 +2884,11 @@ struct ConvertLinalgMatmul
     TypedValue<RankedTensorType> rhs =
         cast<TypedValue<RankedTensorType>>(adaptor.getInputs()[1]);
     SSAValue rhsLeaf(rhs);
+    if (lhs.getType().getDimSize(0) != 1 || lhs.getType() != rhs.getType() ||
+        lhs.getType() != adaptor.getOutputs()[0].getType()) {
+      return op.emitError(
+          "bicyclic matmul needs the matrices in one ciphertext each");
+    }
 
     auto lhsType = cast<RankedTensorType>(op.getInputs()[0].getType());
     auto rhsType = cast<RankedTensorType>(op.getInputs()[1].getType());
@@ -2923,23 +2932,25 @@ struct ConvertLinalgMatmul
     int64_t validPrefix = ctSemanticResultType.getDimSize(1) - reach;
     LLVM_DEBUG(llvm::dbgs()
                << "Bicyclic matmul valid prefix: " << validPrefix << "\n");
+    if (validPrefix < dataSemanticResultType.getNumElements()) {
+      return op.emitError("ciphertexts have too few slots for bicyclic matmul");
+    }
     Operation* replicated = replicateValidPrefixOfResult(
         b, addBias->getResult(0), layoutAttr,
         dataSemanticResultType.getNumElements(), validPrefix);
     setMaterializedAttr(replicated);
     rewriter.replaceOp(op, replicated);
+    return success();
   }
 
   LogicalResult matchAndRewrite(
       linalg::MatmulOp op, OpAdaptor adaptor,
       ContextAwareConversionPatternRewriter& rewriter) const final {
     if (supportsBicyclicDiagonal(op)) {
-      bicyclicDiagonalKernel(op, adaptor, rewriter);
-      return success();
+      return bicyclicDiagonalKernel(op, adaptor, rewriter);
     }
     if (supportsBicyclic(op, adaptor)) {
-      bicyclicKernel(op, adaptor, rewriter);
-      return success();
+      return bicyclicKernel(op, adaptor, rewriter);
     }
     return failure();
   }
@@ -2966,7 +2977,7 @@ struct ConvertLinalgBatchMatmul
            kernelAttr.getName() == KernelName::BatchMatmulTricyclic;
   }
 
-  void tricyclicKernel(linalg::BatchMatmulOp op, OpAdaptor adaptor,
+  LogicalResult tricyclicKernel(linalg::BatchMatmulOp op, OpAdaptor adaptor,
                        ContextAwareConversionPatternRewriter& rewriter) const {
     LLVM_DEBUG(llvm::dbgs()
                << "Converting linalg.batch_matmul op with tricyclic kernel: "
@@ -2978,6 +2989,11 @@ struct ConvertLinalgBatchMatmul
     TypedValue<RankedTensorType> rhs =
         cast<TypedValue<RankedTensorType>>(adaptor.getInputs()[1]);
     SSAValue rhsLeaf(rhs);
+    if (lhs.getType().getDimSize(0) != 1 || lhs.getType() != rhs.getType() ||
+        lhs.getType() != adaptor.getOutputs()[0].getType()) {
+      return op.emitError(
+          "tricyclic batch matmul needs the matrices in one ciphertext each");
+    }
 
     auto lhsType = cast<RankedTensorType>(op.getInputs()[0].getType());
     auto rhsType = cast<RankedTensorType>(op.getInputs()[1].getType());
@@ -3021,19 +3037,23 @@ struct ConvertLinalgBatchMatmul
     int64_t validPrefix = ctSemanticResultType.getDimSize(1) - reach;
     LLVM_DEBUG(llvm::dbgs() << "Tricyclic batch matmul valid prefix: "
                             << validPrefix << "\n");
+    if (validPrefix < dataSemanticResultType.getNumElements()) {
+      return op.emitError(
+          "ciphertexts have too few slots for tricyclic batch matmul");
+    }
     Operation* replicated = replicateValidPrefixOfResult(
         b, addBias->getResult(0), layoutAttr,
         dataSemanticResultType.getNumElements(), validPrefix);
     setMaterializedAttr(replicated);
     rewriter.replaceOp(op, replicated);
+    return success();
   }
 
   LogicalResult matchAndRewrite(
       linalg::BatchMatmulOp op, OpAdaptor adaptor,
       ContextAwareConversionPatternRewriter& rewriter) const final {
     if (supportsTricyclic(op, adaptor)) {
-      tricyclicKernel(op, adaptor, rewriter);
-      return success();
+      return tricyclicKernel(op, adaptor, rewriter);
     }
     return failure();
   }
-- 
2.43.0


From d3f04a639b3e38b4d6d2b25fd0ba99a50fdfb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 39/90] fix: lay out reductions, dot products and matmul
 accumulators as their kernels compute them

---
 .../ConvertToCiphertextSemantics.cpp          | 52 ++++++++++++++++---
 .../LayoutPropagation/LayoutPropagation.cpp   | 40 +++++++++++---
 lib/Transforms/LayoutPropagation/Utils.cpp    | 30 ++++++++++-
 lib/Transforms/LayoutPropagation/Utils.h      |  9 ++++
 4 files changed, 114 insertions(+), 17 deletions(-)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index d102dd1..cfaf789 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -671,14 +671,18 @@ class ConversionBase : public ContextAwareOpConversionPattern<OpTy> {
                           Location loc,
                           std::shared_ptr<ArithmeticDagNode<SSAValue>> kernel,
                           Type convertedType, Attribute layoutAttr) const {
+    DenseSet<Operation*> createdOps;
     IRMaterializingVisitor visitor(convertedType, [&](Operation* createdOp) {
+      createdOps.insert(createdOp);
       setMaterializedAttr(createdOp);
     });
 
     ImplicitLocOpBuilder b(loc, rewriter);
     Value finalOutput = visitor.process(kernel, b)[0];
 
+    // A trivial kernel returns its operand, which keeps its own layout.
     auto* finalOutputOp = finalOutput.getDefiningOp();
+    if (!createdOps.contains(finalOutputOp)) return finalOutput;
     finalOutputOp->setAttr(kLayoutAttrName, layoutAttr);
     setMaterializedAttr(finalOutputOp);
     return finalOutput;
@@ -707,10 +711,12 @@ class ConvertLinalgReduce : public ConversionBase<linalg::ReduceOp> {
     auto input = op.getInputs()[0];
 
     auto originalShape = cast<RankedTensorType>(input.getType()).getShape();
-    // Pre-conditions enforce that the reduction operation occurs along the
-    // inputs single axis
-    unsigned steps = originalShape[op.getDimensions()[0]];
-    unsigned period = 1;
+    // The input is row-major, so elements along the reduced dimension are
+    // strided by the size of the dimensions after it.
+    int64_t dim = op.getDimensions()[0];
+    int64_t steps = originalShape[dim];
+    int64_t period = 1;
+    for (int64_t size : originalShape.drop_front(dim + 1)) period *= size;
 
     SSAValue vectorLeaf(adaptor.getInputs()[0]);
     kernel::DagType dagType = kernel::mlirTypeToDagType(input.getType());
@@ -727,9 +733,19 @@ class ConvertLinalgReduce : public ConversionBase<linalg::ReduceOp> {
     Value finalOutput = materializeKernel(
         rewriter, op.getLoc(), implementedKernel, convertedType, layoutAttr);
 
-    // Add the initial  value.
-    Value result = adaptor.getInits()[0];
-    addBiasAndReplace(rewriter, op, finalOutput, result, layoutAttr);
+    // Combine with the initial value.
+    Value init = adaptor.getInits()[0];
+    if (isa<arith::MulFOp, arith::MulIOp>(innerOp)) {
+      ImplicitLocOpBuilder b(op->getLoc(), rewriter);
+      Operation* scaled =
+          makeAppropriatelyTypedMulOp(b, op->getLoc(), finalOutput, init);
+      setAttributeAssociatedWith(scaled->getResults()[0], kLayoutAttrName,
+                                 layoutAttr);
+      setMaterializedAttr(scaled);
+      rewriter.replaceOp(op, scaled->getResults());
+      return;
+    }
+    addBiasAndReplace(rewriter, op, finalOutput, init, layoutAttr);
   }
 
   LogicalResult matchAndRewrite(
@@ -770,6 +786,20 @@ class ConvertLinalgReduce : public ConversionBase<linalg::ReduceOp> {
       return rewriter.notifyMatchFailure(
           op, "missing new layout attribute for input");
 
+    // Rotations act on each ciphertext separately, so the elements reduced to
+    // one result must be in the same ciphertext.
+    auto inputType = cast<RankedTensorType>(op.getInputs()[0].getType());
+    auto packedType = cast<RankedTensorType>(input.getType());
+    int64_t numSlots = packedType.getShape().back();
+    int64_t period = 1;
+    for (int64_t size :
+         inputType.getShape().drop_front(op.getDimensions()[0]))
+      period *= size;
+    if (inputType.getNumElements() > numSlots && numSlots % period != 0) {
+      return op.emitError(
+          "linalg.reduce only supported within a single ciphertext");
+    }
+
     // Based on ImplementRotateAndReduce
     rotateAndReduceKernel(op, adaptor, rewriter, innerOp);
     return success();
@@ -807,7 +837,13 @@ struct ConvertLinalgDot : public ConversionBase<linalg::DotOp> {
 
     auto originalShape =
         cast<RankedTensorType>(op.getInputs()[0].getType()).getShape();
-    unsigned steps = originalShape[0];
+    // The layout pads vectors with zeros to a power of two, and replicates the
+    // padded vector, so reducing the padding makes every slot correct.
+    int64_t steps = llvm::PowerOf2Ceil(originalShape[0]);
+    if (steps > cast<RankedTensorType>(lhs.getType()).getShape().back()) {
+      return op.emitError(
+          "linalg.dot only supported within a single ciphertext");
+    }
 
     kernel::DagType dagType = kernel::mlirTypeToDagType(lhs.getType());
     auto implementedKernel =
diff --git a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
index af46107..43d101f 100644
--- a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
+++ b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
@@ -787,6 +787,21 @@ LogicalResult LayoutPropagation::visitOperation(MatvecOp op) {
 
 LogicalResult LayoutPropagation::visitOperation(DotOp op) {
   LLVM_DEBUG(llvm::dbgs() << "visitOperation(DotOp): " << op << "\n");
+  // The kernel rotates the product of row-major inputs.
+  mlir::IRRewriter builder(&getContext());
+  for (Value input : SmallVector<Value>(op.getInputs())) {
+    auto inputType = cast<RankedTensorType>(input.getType());
+    LayoutAttr inputLayout = getComposedLayoutAttr(input);
+    if (!isRelationRowMajor(inputType, minSlotCount,
+                            inputLayout.getIntegerRelation())) {
+      auto [toReplace, newInputLayoutAttr] = convertToLayout(
+          &getContext(), builder, op, input, inputLayout,
+          getRowMajorLayoutRelation(inputType, minSlotCount));
+      debugAssignLayout(toReplace, newInputLayoutAttr);
+      assignedLayouts.insert({toReplace, newInputLayoutAttr});
+    }
+  }
+
   Value result = op.getResult(0);
   FailureOr<LayoutAttr> layout = defaultLayoutForType(result.getType());
   if (failed(layout)) {
@@ -1413,7 +1428,8 @@ LogicalResult LayoutPropagation::visitOperation(MatmulOp op) {
     auto kernelAttr = secret::KernelAttr::get(ctx, KernelName::MatmulBicyclic,
                                               /*force=*/false);
     op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
-    return success();
+    return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                     outputLayoutAttr);
   }
 
   // Bicyclic ct-pt matmul with generalized-diagonal-layout plaintext.
@@ -1466,7 +1482,8 @@ LogicalResult LayoutPropagation::visitOperation(MatmulOp op) {
     auto kernelAttr = secret::KernelAttr::get(
         ctx, KernelName::MatmulBicyclicDiagonal, /*force=*/false);
     op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
-    return success();
+    return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                     outputLayoutAttr);
   }
 
   // Assign a per-row layout to the input matrix. Each row of the input matrix
@@ -1527,8 +1544,8 @@ LogicalResult LayoutPropagation::visitOperation(ReduceOp op) {
   mlir::IRRewriter builder(ctx);
   builder.setInsertionPoint(op);
 
-  for (const auto& [tensor, result] :
-       llvm::zip(op.getInputs(), op.getResults())) {
+  for (const auto& [tensor, init, result] :
+       llvm::zip(op.getInputs(), op.getInits(), op.getResults())) {
     LayoutAttr thisLayout = getComposedLayoutAttr(tensor);
 
     // enforce row-major layout
@@ -1546,9 +1563,11 @@ LogicalResult LayoutPropagation::visitOperation(ReduceOp op) {
 
     // drop dimension on output
     LayoutAttr resultLayout =
-        convertLayoutForReduce(thisLayout, op.getDimensions());
+        getRotateAndReduceLayout(thisType, thisLayout, op.getDimensions());
     assignedLayouts.insert({result, resultLayout});
     debugAssignLayout(result, resultLayout);
+    if (failed(alignInitWithResultLayout(op, init, resultLayout)))
+      return failure();
   }
   setResultLayoutAttr(op);
   return success();
@@ -1855,7 +1874,8 @@ CompatibilityResult LayoutPropagation::hasCompatibleArgumentLayouts(
     LayoutAttr inputLayout = getComposedLayoutAttr(input);
     LayoutAttr initLayout = getComposedLayoutAttr(init);
     LayoutAttr reducedInputLayout =
-        convertLayoutForReduce(inputLayout, op.getDimensions());
+        getRotateAndReduceLayout(cast<RankedTensorType>(input.getType()),
+                                 inputLayout, op.getDimensions());
 
     if (reducedInputLayout != initLayout) {
       return {false, std::nullopt};
@@ -2002,7 +2022,10 @@ CompatibilityResult LayoutPropagation::hasCompatibleArgumentLayouts(
   auto compatibleDestRelation = pushSliceLayoutThroughInsertSlice(
       SmallVector<int64_t>(op.getStaticSizes()), op.getResultType().getShape(),
       insertLayout.getIntegerRelation());
-  assert(succeeded(compatibleDestRelation) && "expected to infer slice layout");
+  if (failed(compatibleDestRelation)) {
+    return {false, op->emitError("only slices that are full or have size one in "
+                                 "each dimension are supported")};
+  }
 
   // We compare layout attributes, which is a strict equality check on the
   // attribute string. This is more strict than comparing the IntegerRelations,
@@ -2125,7 +2148,8 @@ void LayoutPropagation::rectifyIncompatibleOperandLayouts(ReduceOp op) {
     LayoutAttr inputLayout = getComposedLayoutAttr(input);
     LayoutAttr initLayout = getComposedLayoutAttr(init);
     LayoutAttr reducedInputLayout =
-        convertLayoutForReduce(inputLayout, op.getDimensions());
+        getRotateAndReduceLayout(cast<RankedTensorType>(input.getType()),
+                                 inputLayout, op.getDimensions());
 
     if (reducedInputLayout != initLayout) {
       ConvertLayoutOp convertOp = ConvertLayoutOp::create(
diff --git a/lib/Transforms/LayoutPropagation/Utils.cpp b/lib/Transforms/LayoutPropagation/Utils.cpp
index 695a0e5..b373041 100644
--- a/lib/Transforms/LayoutPropagation/Utils.cpp
+++ b/lib/Transforms/LayoutPropagation/Utils.cpp
@@ -145,7 +145,10 @@ LayoutAttr convertLayoutForReduce(LayoutAttr inputLayout,
     auto dimIndex = offset + dim;
     assert(clonedRelation->getVarKindAt(dimIndex) ==
            presburger::VarKind::Domain);
-    clonedRelation->projectOut(dimIndex, 1);
+    // A projection that eliminates the variable may have no exact
+    // representation, and would then give slots to the wrong elements.
+    clonedRelation->convertVarKind(presburger::VarKind::Domain, dim, dim + 1,
+                                   presburger::VarKind::Local);
   }
 
   MLIRContext* context = inputLayout.getContext();
@@ -153,5 +156,30 @@ LayoutAttr convertLayoutForReduce(LayoutAttr inputLayout,
                                             std::move(*clonedRelation));
 }
 
+LayoutAttr getRotateAndReduceLayout(RankedTensorType inputType,
+                                    LayoutAttr inputLayout,
+                                    ArrayRef<int64_t> dimsToReduce) {
+  if (dimsToReduce.size() != 1)
+    return convertLayoutForReduce(inputLayout, dimsToReduce);
+
+  int64_t dim = dimsToReduce.front();
+  ArrayRef<int64_t> shape = inputType.getShape();
+  auto product = [](ArrayRef<int64_t> dims) {
+    int64_t result = 1;
+    for (int64_t d : dims) result *= d;
+    return result;
+  };
+  int64_t period = shape[dim] * product(shape.drop_front(dim + 1));
+  if (shape[dim] == 1 ||
+      (product(shape.take_front(dim)) == 1 && llvm::isPowerOf2_64(period)))
+    return convertLayoutForReduce(inputLayout, dimsToReduce);
+
+  presburger::IntegerRelation relation = inputLayout.getIntegerRelation();
+  relation.setAndEliminate(
+      relation.getVarKindOffset(presburger::VarKind::Domain) + dim, {0});
+  return LayoutAttr::getFromIntegerRelation(inputLayout.getContext(),
+                                            std::move(relation));
+}
+
 }  // namespace heir
 }  // namespace mlir
diff --git a/lib/Transforms/LayoutPropagation/Utils.h b/lib/Transforms/LayoutPropagation/Utils.h
index 90e037a..f89b04d 100644
--- a/lib/Transforms/LayoutPropagation/Utils.h
+++ b/lib/Transforms/LayoutPropagation/Utils.h
@@ -98,6 +98,15 @@ int64_t maxOfMaxes(::llvm::ArrayRef<int64_t> d1, ::llvm::ArrayRef<int64_t> d2);
 LayoutAttr convertLayoutForReduce(LayoutAttr inputLayout,
                                   ArrayRef<int64_t> dimsToReduce);
 
+// Returns the layout of the result of reducing one dimension of a row-major
+// tensor by adding rotations of its ciphertext. When the rotations cycle
+// through the reduced dimension, the result is in every slot of a reduced
+// element. Otherwise it is only in the slots of the elements at index zero of
+// the reduced dimension, and the remaining slots hold partial reductions.
+tensor_ext::LayoutAttr getRotateAndReduceLayout(
+    RankedTensorType inputType, tensor_ext::LayoutAttr inputLayout,
+    ArrayRef<int64_t> dimsToReduce);
+
 }  // namespace heir
 }  // namespace mlir
 
-- 
2.43.0


From 141cffe88dded310e026de10ae73067c9251f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 40/90] fix: fold a rotation of a constant along its last axis
 only

---
 lib/Dialect/TensorExt/IR/TensorExtOps.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
index b9b6f33..a448056 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
+++ b/lib/Dialect/TensorExt/IR/TensorExtOps.cpp
@@ -36,13 +36,15 @@ namespace tensor_ext {
 // populateWithGenerated, which can conflict with other generated patterns.
 #include "lib/Dialect/TensorExt/IR/TensorExtCanonicalization.cpp.inc"
 
+// Rotate each row of `rowSize` elements left by `shift`.
 template <typename T>
-static SmallVector<T> rotateAttrValues(SmallVector<T> elts, int64_t shift) {
+static SmallVector<T> rotateAttrValues(SmallVector<T> elts, int64_t rowSize,
+                                       int64_t shift) {
   SmallVector<T> newElts;
   newElts.reserve(elts.size());
-  for (int i = 0; i < elts.size(); ++i) {
-    int64_t source = (i + shift + elts.size()) % elts.size();
-    newElts.push_back(elts[source]);
+  for (int64_t i = 0; i < static_cast<int64_t>(elts.size()); ++i) {
+    int64_t column = i % rowSize;
+    newElts.push_back(elts[i - column + llvm::mod(column + shift, rowSize)]);
   }
   return newElts;
 }
@@ -65,6 +67,8 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
       return rewriter.notifyMatchFailure(
           op, "requires constant shift OpFoldResult");
     int64_t shift = cast<IntegerAttr>(shiftConst).getInt();
+    // The last axis is the one that is rotated.
+    int64_t rowSize = op.getTensor().getType().getShape().back();
 
     arith::ConstantOp newOp;
 
@@ -72,7 +76,7 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
         dyn_cast<DenseIntElementsAttr>(constantOp.getValueAttr());
     if (denseIntAttr) {
       SmallVector<APInt> elts(denseIntAttr.getValues<APInt>());
-      SmallVector<APInt> newElts = rotateAttrValues<APInt>(elts, shift);
+      SmallVector<APInt> newElts = rotateAttrValues<APInt>(elts, rowSize, shift);
       DenseIntElementsAttr newAttr =
           DenseIntElementsAttr::get(denseIntAttr.getType(), newElts);
       newOp = arith::ConstantOp::create(
@@ -83,7 +87,8 @@ struct FoldRotateOfConst : public OpRewritePattern<tensor_ext::RotateOp> {
         dyn_cast<DenseFPElementsAttr>(constantOp.getValueAttr());
     if (denseFloatAttr) {
       SmallVector<APFloat> elts(denseFloatAttr.getValues<APFloat>());
-      SmallVector<APFloat> newElts = rotateAttrValues<APFloat>(elts, shift);
+      SmallVector<APFloat> newElts =
+          rotateAttrValues<APFloat>(elts, rowSize, shift);
       DenseFPElementsAttr newAttr =
           DenseFPElementsAttr::get(denseFloatAttr.getType(), newElts);
       newOp = arith::ConstantOp::create(
-- 
2.43.0


From bd80e36ed32b06fa601746635d425841c8faac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 41/90] fix: keep rotation canonicalizations exact for
 negative, wrapping and mixed-type shifts

---
 .../TensorExt/IR/TensorExtCanonicalization.td | 60 +++++++++++--------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
index 7cd5c8d..5453fb0 100644
--- a/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
+++ b/lib/Dialect/TensorExt/IR/TensorExtCanonicalization.td
@@ -11,17 +11,33 @@ def OutOfBoundsOfTensorDim :
   Constraint<
     CPred<
       "llvm::cast<mlir::IntegerAttr>($0).getValue().getSExtValue() < 0 "
-      "|| llvm::cast<mlir::IntegerAttr>($0).getValue().getSExtValue() > "
+      "|| llvm::cast<mlir::IntegerAttr>($0).getValue().getSExtValue() >= "
       "llvm::cast<mlir::ShapedType>($1.getType()).getShape()[0]"
     >
   >;
 
 def IsOneDimTensor : Constraint<
   CPred<
-    "llvm::cast<mlir::ShapedType>($0.getType()).getRank() == 1"
+    "llvm::cast<mlir::ShapedType>($0.getType()).getRank() == 1 && "
+    "llvm::cast<mlir::ShapedType>($0.getType()).hasStaticShape()"
   >
 >;
 
+def HaveSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
+
+// The shift $0 modulo the size of the one-dimensional tensor $1.
+def NormalizedShiftAttr : NativeCodeCall<
+  "::mlir::IntegerAttr::get(::llvm::cast<::mlir::IntegerAttr>($0).getType(), "
+  "::llvm::mod(::llvm::cast<::mlir::IntegerAttr>($0).getValue().getSExtValue(), "
+  "::llvm::cast<::mlir::ShapedType>($1.getType()).getShape()[0]))">;
+
+// The slot of the one-dimensional tensor $2 that a rotation by $0 moves to $1.
+def RotatedIndexAttr : NativeCodeCall<
+  "$_builder.getIndexAttr(::llvm::mod("
+  "::llvm::cast<::mlir::IntegerAttr>($0).getValue().getSExtValue() + "
+  "::llvm::cast<::mlir::IntegerAttr>($1).getValue().getSExtValue(), "
+  "::llvm::cast<::mlir::ShapedType>($2.getType()).getShape()[0]))">;
+
 def DenseElementsAttrIsSplatPred
     : CPred<"llvm::isa<mlir::DenseElementsAttr>($_self) && llvm::cast<mlir::DenseElementsAttr>($_self).isSplat()">;
 
@@ -43,21 +59,15 @@ def DropZeroRotation : Pat<
   [(IsZeroIntAttr $c0)]
 >;
 
-// Currently commented out because it doesn't work for multi-dimensional tensors.
-// Will be uncommented and fixed by Asra's PR. Commenting this out causes various
-// other tests to fail.
 // rotate %t, x -> rotate %t, x mod size
+//
+// The remainder is computed on the attribute, and is the one that lies in
+// [0, size) for negative shifts too. Only works for 1D tensors: the index is
+// taken modulo the tensor length, i.e., dim 0.
 def NormalizeRotationIndex : Pat<
   (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$shiftOp APIntAttr:$shiftAmount)),
   (TensorExt_RotateOp $tensor,
-      (Arith_RemUIOp
-        $shiftOp,
-        // Only works for 1D tensors: index is taken modulo the tensor length,
-        // i.e., dim 0
-        (CreateIndexCastOp
-          (Tensor_DimOp $tensor, (Arith_ConstantOp ConstantAttr<IndexAttr, "0">)),
-          $shiftOp))
-      ),
+      (Arith_ConstantOp (NormalizedShiftAttr $shiftAmount, $tensor))),
   [(OutOfBoundsOfTensorDim $shiftAmount, $tensor),
    (IsOneDimTensor $tensor)]
 >;
@@ -70,18 +80,20 @@ def CombineSequentialRotates : Pat<
     (TensorExt_RotateOp $tensor, (Arith_ConstantOp:$xOp APIntAttr:$x)),
     (Arith_ConstantOp:$yOp APIntAttr:$y)),
   (TensorExt_RotateOp $tensor, (Arith_AddIOp $xOp, $yOp, DefOverflow)),
-  []
+  [(HaveSameType $xOp, $yOp)]
 >;
 
 // A rotation followed by extraction can be extracted directly from the
-// original tensor.
+// original tensor, at the sum of the shift and the index modulo its size.
 def RotatePlusExtractToIndexedExtract : Pat<
   (Tensor_ExtractOp
-    (TensorExt_RotateOp $tensor, $shift),
-    (variadic $index)),
+    (TensorExt_RotateOp $tensor, (ConstantLikeMatcher APIntAttr:$shift)),
+    (variadic (Arith_ConstantOp APIntAttr:$index))),
   (Tensor_ExtractOp
     $tensor,
-    (MakeSingleResultVariadic (Arith_AddIOp $shift, $index, DefOverflow)))
+    (MakeSingleResultVariadic
+      (Arith_ConstantOp (RotatedIndexAttr $shift, $index, $tensor)))),
+  [(IsOneDimTensor $tensor)]
 >;
 
 foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
@@ -117,7 +129,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s3, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s3, $s2, DefOverflow)),
       $ovf),
-    [], [], (addBenefit 2)
+    [(HaveSameType $s1, $s3), (HaveSameType $s2, $s3)], [], (addBenefit 2)
   >;
 
   // These two patterns don't eliminate any rotations, but they move rotations
@@ -162,7 +174,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
     //
     // But the original addi cannot be removed, and so the rotation it depends
     // on also cannot be removed.
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
   def MergeEquivalentRotationsEarlierRHS_#ArithOp : Pat<
     (TensorExt_RotateOp
@@ -175,7 +187,7 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       (TensorExt_RotateOp $t2, $s2),
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s2, $s1, DefOverflow)),
       $ovf),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
 }
 
@@ -200,7 +212,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s3, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s3, $s2, DefOverflow)),
       $fm, $rm),
-    [], [], (addBenefit 2)
+    [(HaveSameType $s1, $s3), (HaveSameType $s2, $s3)], [], (addBenefit 2)
   >;
 
   def MergeEquivalentRotationsEarlierLHS_#ArithOp : Pat<
@@ -214,7 +226,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, (Arith_AddIOp $s2, $s1, DefOverflow)),
       (TensorExt_RotateOp $t2, $s2),
       $fm, $rm),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
 
   def MergeEquivalentRotationsEarlierRHS_#ArithOp : Pat<
@@ -228,7 +240,7 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       (TensorExt_RotateOp $t1, $s2),
       (TensorExt_RotateOp $t2, (Arith_AddIOp $s2, $s1, DefOverflow)),
       $fm, $rm),
-    [(HasOneUse:$arithOp)]
+    [(HasOneUse:$arithOp), (HaveSameType $s1, $s2)]
   >;
 }
 
-- 
2.43.0


From 5e3960967bb056e588245eed9ff51fa7d1e3e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 42/90] fix: insert rotations only between tensors of one type
 and within their slots

---
 .../TensorExt/Transforms/InsertRotate.td      | 87 ++++++++++++-------
 1 file changed, 56 insertions(+), 31 deletions(-)

diff --git a/lib/Dialect/TensorExt/Transforms/InsertRotate.td b/lib/Dialect/TensorExt/Transforms/InsertRotate.td
index 44a1dc6..8d6e3fd 100644
--- a/lib/Dialect/TensorExt/Transforms/InsertRotate.td
+++ b/lib/Dialect/TensorExt/Transforms/InsertRotate.td
@@ -9,16 +9,27 @@ include "mlir/IR/CommonTypeConstraints.td"
 include "mlir/IR/Constraints.td"
 include "mlir/IR/PatternBase.td"
 
-// Get the target_slot attribute from an op, if it exists, or else
-// return a zero index attribute.
+// Get the target_slot attribute from an op, if it exists and is a slot of the
+// tensor $1, or else return a zero index attribute.
 def GetTargetSlotAttr : NativeCodeCall<
-      "$0.getOwner()->hasAttr(\"target_slot\")"
+      "$0.getOwner()->hasAttr(\"target_slot\") &&"
+      " llvm::cast<mlir::IntegerAttr>($0.getOwner()->getAttr(\"target_slot\")).getInt() <"
+      " llvm::cast<mlir::ShapedType>($1.getType()).getShape()[0]"
       " ? llvm::cast<mlir::IntegerAttr>($0.getOwner()->getAttr(\"target_slot\"))"
       " : $_builder.getIndexAttr(0)">;
 
 def CreateSplatOp : NativeCodeCall<
       "tensor::SplatOp::create($_builder, $2.getLoc(), $0, $1.getType())">;
 
+// Rotations align the slots of one-dimensional tensors of one type.
+def IsOneDimStaticTensor : Constraint<
+  CPred<
+    "llvm::cast<mlir::ShapedType>($0.getType()).getRank() == 1 && "
+    "llvm::cast<mlir::ShapedType>($0.getType()).hasStaticShape()"
+  >
+>;
+def HaveSameType : Constraint<CPred<"$0.getType() == $1.getType()">>;
+
 // The patterns in this file are intended to align with the automatic-SIMD
 // batching heuristics from the HECO project. See section 4.4 of
 // https://arxiv.org/abs/2202.01649 and the hir2hir passes in
@@ -34,15 +45,16 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       $overflow),
     [
       (TensorExt_RotateOp:$r1 $t1,
-          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (TensorExt_RotateOp:$r2 $t2,
-          (Arith_SubIOp $i2, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i2, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (ArithOp:$opResult $r1, $r2, $overflow),
       (Tensor_ExtractOp
         $opResult,
         (MakeSingleResultVariadic
-          (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+          (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)))),
+    ],
+    [(IsOneDimStaticTensor $t1), (HaveSameType $t1, $t2)]
   >;
 
   // In this and the next pattern, the non-tensor arg must be elevated to a tensor
@@ -55,13 +67,14 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       $overflow),
     [
       (TensorExt_RotateOp:$r1 $t1,
-          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (ArithOp:$opResult $r1, (CreateSplatOp $nonExtractedArg, $t1, $arithOp), $overflow),
       (Tensor_ExtractOp
         $opResult,
         (MakeSingleResultVariadic
-          (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+          (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)))),
+    ],
+    [(IsOneDimStaticTensor $t1)]
   >;
 
   def InsertRotations_SplatLHSToTensor_#ArithOp : Pattern<
@@ -71,13 +84,14 @@ foreach ArithOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
       $overflow),
     [
       (TensorExt_RotateOp:$r1 $t1,
-          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (ArithOp:$opResult (CreateSplatOp $nonExtractedArg, $t1, $arithOp), $r1, $overflow),
       (Tensor_ExtractOp
         $opResult,
         (MakeSingleResultVariadic
-          (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+          (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)))),
+    ],
+    [(IsOneDimStaticTensor $t1)]
   >;
 }
 
@@ -89,15 +103,16 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       $fastmath, $roundingmode),
     [
       (TensorExt_RotateOp:$r1 $t1,
-          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (TensorExt_RotateOp:$r2 $t2,
-          (Arith_SubIOp $i2, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i2, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (ArithOp:$opResult $r1, $r2, $fastmath, $roundingmode),
       (Tensor_ExtractOp
         $opResult,
         (MakeSingleResultVariadic
-          (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+          (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)))),
+    ],
+    [(IsOneDimStaticTensor $t1), (HaveSameType $t1, $t2)]
   >;
 
   def InsertRotations_SplatRHSToTensor_#ArithOp : Pattern<
@@ -107,13 +122,14 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       $fastmath, $roundingmode),
     [
       (TensorExt_RotateOp:$r1 $t1,
-          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (ArithOp:$opResult $r1, (CreateSplatOp $nonExtractedArg, $t1, $arithOp), $fastmath, $roundingmode),
       (Tensor_ExtractOp
         $opResult,
         (MakeSingleResultVariadic
-          (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+          (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)))),
+    ],
+    [(IsOneDimStaticTensor $t1)]
   >;
 
   def InsertRotations_SplatLHSToTensor_#ArithOp : Pattern<
@@ -123,13 +139,14 @@ foreach ArithOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
       $fastmath, $roundingmode),
     [
       (TensorExt_RotateOp:$r1 $t1,
-          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp)), DefOverflow)),
+          (Arith_SubIOp $i1, (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)), DefOverflow)),
       (ArithOp:$opResult (CreateSplatOp $nonExtractedArg, $t1, $arithOp), $r1, $fastmath, $roundingmode),
       (Tensor_ExtractOp
         $opResult,
         (MakeSingleResultVariadic
-          (Arith_ConstantOp (GetTargetSlotAttr $arithOp)))),
-    ]
+          (Arith_ConstantOp (GetTargetSlotAttr $arithOp, $t1)))),
+    ],
+    [(IsOneDimStaticTensor $t1)]
   >;
 }
 
@@ -159,7 +176,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         // Downstream ops are not updated by this pass, so we need to preserve the original
         // rotation and then clean it up in a separate canonicalization pattern.
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
 
     // Right associated grouping handles (add (rotate t1 i1) (add (rotate t2 i2) (rotate t3 i3)))
@@ -176,7 +194,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         // Downstream ops are not updated by this pass, so we need to preserve the original
         // rotation and then clean it up in a separate canonicalization pattern.
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
   }
 
@@ -192,7 +211,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         (InnerOp:$addResult $r1, $r2, $ovf1),
         (OuterOp:$output $addResult, $t3, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
 
     def AlignRotations_RightAssociated_Inner_#InnerOp#_Outer_#OuterOp : Pattern<
@@ -206,7 +226,8 @@ foreach InnerOp = [Arith_AddIOp, Arith_SubIOp, Arith_MulIOp] in {
         (InnerOp:$addResult $r1, $r2, $ovf1),
         (OuterOp:$output $t3, $addResult, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
   }
 }
@@ -224,7 +245,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $addResult, $t3, $ovf2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
 
     def AlignRotations_RightAssociated_Inner_#InnerOp#_Outer_#OuterOp : Pattern<
@@ -238,7 +260,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $t3, $addResult, $ovf2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
   }
 
@@ -254,7 +277,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $addResult, $t3, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
 
     def AlignRotations_RightAssociated_Inner_#InnerOp#_Outer_#OuterOp : Pattern<
@@ -268,7 +292,8 @@ foreach InnerOp = [Arith_AddFOp, Arith_SubFOp, Arith_MulFOp] in {
         (InnerOp:$addResult $r1, $r2, $fm1, $rm1),
         (OuterOp:$output $t3, $addResult, $fm2, $rm2),
         (TensorExt_RotateOp $output, $i3),
-      ]
+      ],
+      [(HaveSameType $i1, $i3), (HaveSameType $i2, $i3)]
     >;
   }
 }
-- 
2.43.0


From efbfe19099010a0218ecdd42d88aa17ff17efb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 43/90] fix: find every executed rotation or reject the program
 in the rotation analysis

---
 lib/Analysis/RotationAnalysis/DagBuilder.cpp  | 169 ++++++++++++++++--
 lib/Analysis/RotationAnalysis/DagBuilder.h    |   5 +
 .../RotationAnalysis/RotationAnalysis.cpp     |  21 +++
 3 files changed, 184 insertions(+), 11 deletions(-)

diff --git a/lib/Analysis/RotationAnalysis/DagBuilder.cpp b/lib/Analysis/RotationAnalysis/DagBuilder.cpp
index cb71c8f..696adf3 100644
--- a/lib/Analysis/RotationAnalysis/DagBuilder.cpp
+++ b/lib/Analysis/RotationAnalysis/DagBuilder.cpp
@@ -38,6 +38,68 @@ using kernel::mlirTypeToDagType;
 using Node = ArithmeticDagNode<LiteralValue>;
 using NodePtr = std::shared_ptr<Node>;
 
+static bool isDetermined(Value value, Operation* outermost,
+                         DenseSet<Value>& visited) {
+  IntegerAttr attr;
+  if (matchPattern(value, m_Constant(&attr))) return true;
+  if (!value.getType().isIntOrIndex()) return false;
+  // In a cycle through the iter args of a loop, it's up to the other values.
+  if (!visited.insert(value).second) return true;
+
+  auto determined = [&](Value other) {
+    return isDetermined(other, outermost, visited);
+  };
+
+  if (auto blockArg = dyn_cast<BlockArgument>(value)) {
+    auto forOp = dyn_cast<scf::ForOp>(blockArg.getOwner()->getParentOp());
+    if (!forOp || !outermost->isAncestor(forOp)) return false;
+    if (value == forOp.getInductionVar()) {
+      return matchPattern(forOp.getLowerBound(), m_Constant()) &&
+             matchPattern(forOp.getUpperBound(), m_Constant()) &&
+             matchPattern(forOp.getStep(), m_Constant());
+    }
+    return determined(forOp.getTiedLoopInit(blockArg)->get()) &&
+           determined(forOp.getTiedLoopYieldedValue(blockArg)->get());
+  }
+
+  auto result = cast<OpResult>(value);
+  Operation* op = result.getOwner();
+  if (!outermost->isProperAncestor(op)) return false;
+  return llvm::TypeSwitch<Operation*, bool>(op)
+      .Case<arith::AddIOp, arith::SubIOp, arith::MulIOp, arith::CmpIOp>(
+          [&](auto op) {
+            // The DAG doesn't model the wrapping of narrow integers.
+            return !op.getLhs().getType().isInteger(1) &&
+                   determined(op.getLhs()) && determined(op.getRhs());
+          })
+      .Case<arith::DivSIOp>([&](auto op) {
+        IntegerAttr divisor;
+        return matchPattern(op.getRhs(), m_Constant(&divisor)) &&
+               !divisor.getValue().isZero() && determined(op.getLhs());
+      })
+      .Case<tensor::ExtractOp>([&](auto op) {
+        DenseIntElementsAttr elements;
+        return op.getIndices().size() == 1 &&
+               matchPattern(op.getTensor(), m_Constant(&elements)) &&
+               determined(op.getIndices()[0]);
+      })
+      .Case<scf::ForOp>([&](auto op) {
+        return determined(op.getInits()[result.getResultNumber()]) &&
+               determined(op.getYieldedValues()[result.getResultNumber()]);
+      })
+      .Case<scf::IfOp>([&](auto op) {
+        return determined(op.getCondition()) &&
+               determined(op.thenYield().getOperand(result.getResultNumber())) &&
+               determined(op.elseYield().getOperand(result.getResultNumber()));
+      })
+      .Default([](Operation*) { return false; });
+}
+
+bool isDetermined(Value value, Operation* outermost) {
+  DenseSet<Value> visited;
+  return isDetermined(value, outermost, visited);
+}
+
 NodePtr DagBuilder::findNodeOrMakeNewVariable(Value value) {
   LDBG() << "Finding node for value " << value;
   if (valueToNode.contains(value)) {
@@ -77,9 +139,18 @@ NodePtr DagBuilder::findNodeOrMakeNewVariable(Value value) {
   return res;
 }
 
+static bool containsRotation(Operation* op) {
+  return op
+      ->walk([](RotationOpInterface) { return WalkResult::interrupt(); })
+      .wasInterrupted();
+}
+
 FailureOr<NodePtr> DagBuilder::visitBlockWithSingleTerminator(Block* block) {
   LDBG() << "Visiting block";
   NodePtr last;
+  // The nodes of the ops that rotate, which must be evaluated even if the
+  // yielded values don't depend on them.
+  std::vector<NodePtr> rotations;
   for (Operation& op : block->getOperations()) {
     auto res = build(&op);
     if (failed(res)) return failure();
@@ -88,11 +159,33 @@ FailureOr<NodePtr> DagBuilder::visitBlockWithSingleTerminator(Block* block) {
       LDBG() << "Found terminator " << op;
       assert(!last && "expected single terminator");
       last = res.value();
+    } else if (containsRotation(&op)) {
+      if (!res.value()) return failure();
+      rotations.push_back(res.value());
     }
   }
 
   if (!last) return failure();
-  return last;
+  if (rotations.empty()) return last;
+
+  // Connect the rotations to the first yielded value.
+  auto elements =
+      std::get<kernel::YieldNode<LiteralValue>>(last->node_variant).elements;
+  if (elements.empty()) return failure();
+  rotations.insert(rotations.begin(), elements[0]);
+  for (NodePtr& rotation : llvm::drop_begin(rotations)) {
+    // Loops and conditionals evaluate to as many values as they have results.
+    if (std::holds_alternative<kernel::ForLoopNode<LiteralValue>>(
+            rotation->node_variant) ||
+        std::holds_alternative<kernel::IfElseNode<LiteralValue>>(
+            rotation->node_variant) ||
+        std::holds_alternative<kernel::YieldNode<LiteralValue>>(
+            rotation->node_variant)) {
+      rotation = Node::resultAt(rotation, 0);
+    }
+  }
+  elements[0] = Node::resultAt(Node::yield(std::move(rotations)), 0);
+  return Node::yield(std::move(elements));
 }
 
 FailureOr<NodePtr> DagBuilder::visit(scf::ForOp op) {
@@ -114,6 +207,7 @@ FailureOr<NodePtr> DagBuilder::visit(scf::ForOp op) {
     initTypes.push_back(mlirTypeToDagType(init.getType()));
   }
 
+  bool bodyFailed = false;
   auto dagNode = Node::loop(
       inits, initTypes, lb.getInt(), ub.getInt(), step.getInt(),
       [&](NodePtr inductionVar, const std::vector<NodePtr>& iterArgs) {
@@ -126,9 +220,13 @@ FailureOr<NodePtr> DagBuilder::visit(scf::ForOp op) {
 
         FailureOr<NodePtr> bodyRes =
             visitBlockWithSingleTerminator(op.getBody());
-        assert(succeeded(bodyRes) && "failed to parse body");
+        if (failed(bodyRes)) {
+          bodyFailed = true;
+          return Node::yield(iterArgs);
+        }
         return *bodyRes;
       });
+  if (bodyFailed) return failure();
 
   for (OpResult opResult : op->getOpResults()) {
     valueToNode[opResult] = Node::resultAt(dagNode, opResult.getResultNumber());
@@ -138,6 +236,8 @@ FailureOr<NodePtr> DagBuilder::visit(scf::ForOp op) {
 
 FailureOr<NodePtr> DagBuilder::visit(scf::IfOp op) {
   if (op.getElseRegion().empty()) {
+    // Without results, it only matters if it rotates.
+    if (!containsRotation(op)) return NodePtr(nullptr);
     op.emitOpError()
         << "skipped: If/Else without an else branch is not supported\n";
     return failure();
@@ -152,7 +252,27 @@ FailureOr<NodePtr> DagBuilder::visit(scf::IfOp op) {
   if (failed(elseRes)) return failure();
   NodePtr elseBody = elseRes.value();
 
-  auto dagNode = Node::ifElse(condition, thenBody, elseBody);
+  // If the condition is not known, evaluate both branches.
+  Operation* outermost = op;
+  while (auto forOp = outermost->getParentOfType<scf::ForOp>()) {
+    outermost = forOp;
+  }
+  NodePtr dagNode;
+  if (isDetermined(op.getCondition(), outermost)) {
+    dagNode = Node::ifElse(condition, thenBody, elseBody);
+  } else {
+    auto elements =
+        std::get<kernel::YieldNode<LiteralValue>>(elseBody->node_variant)
+            .elements;
+    if (!elements.empty()) {
+      auto both =
+          std::get<kernel::YieldNode<LiteralValue>>(thenBody->node_variant)
+              .elements;
+      both.insert(both.begin(), elements[0]);
+      elements[0] = Node::resultAt(Node::yield(std::move(both)), 0);
+    }
+    dagNode = Node::yield(std::move(elements));
+  }
   for (OpResult opResult : op->getOpResults()) {
     valueToNode[opResult] = Node::resultAt(dagNode, opResult.getResultNumber());
   }
@@ -235,22 +355,31 @@ FailureOr<NodePtr> DagBuilder::visit(arith::CmpIOp op) {
   auto lhs = findNodeOrMakeNewVariable(op.getLhs());
   auto rhs = findNodeOrMakeNewVariable(op.getRhs());
 
+  bool isUnsigned = false;
   kernel::ComparisonPredicate pred;
   switch (op.getPredicate()) {
-    case arith::CmpIPredicate::slt:
     case arith::CmpIPredicate::ult:
+      isUnsigned = true;
+      [[fallthrough]];
+    case arith::CmpIPredicate::slt:
       pred = kernel::ComparisonPredicate::LT;
       break;
-    case arith::CmpIPredicate::sle:
     case arith::CmpIPredicate::ule:
+      isUnsigned = true;
+      [[fallthrough]];
+    case arith::CmpIPredicate::sle:
       pred = kernel::ComparisonPredicate::LE;
       break;
-    case arith::CmpIPredicate::sgt:
     case arith::CmpIPredicate::ugt:
+      isUnsigned = true;
+      [[fallthrough]];
+    case arith::CmpIPredicate::sgt:
       pred = kernel::ComparisonPredicate::GT;
       break;
-    case arith::CmpIPredicate::sge:
     case arith::CmpIPredicate::uge:
+      isUnsigned = true;
+      [[fallthrough]];
+    case arith::CmpIPredicate::sge:
       pred = kernel::ComparisonPredicate::GE;
       break;
     case arith::CmpIPredicate::eq:
@@ -262,6 +391,19 @@ FailureOr<NodePtr> DagBuilder::visit(arith::CmpIOp op) {
   }
 
   auto dagNode = Node::comparison(lhs, rhs, pred);
+  if (isUnsigned) {
+    // The unsigned comparison is the opposite of the signed one if exactly one
+    // of the operands is negative.
+    auto isNegative = [&](Value value, NodePtr node) {
+      auto zero = Node::constantScalar(0, mlirTypeToDagType(value.getType()));
+      return Node::comparison(node, zero, kernel::ComparisonPredicate::LT);
+    };
+    auto differ = Node::comparison(isNegative(op.getLhs(), lhs),
+                                   isNegative(op.getRhs(), rhs),
+                                   kernel::ComparisonPredicate::NE);
+    dagNode =
+        Node::comparison(dagNode, differ, kernel::ComparisonPredicate::NE);
+  }
   valueToNode[op.getResult()] = dagNode;
   return dagNode;
 }
@@ -284,13 +426,16 @@ FailureOr<NodePtr> DagBuilder::visit(arith::ConstantOp op) {
           })
           .Default([&](auto type) { return nullptr; });
 
-  if (!dagNode) return failure();
+  // Other constants can't determine a rotation index.
+  if (!dagNode) return findNodeOrMakeNewVariable(op.getResult());
   valueToNode[op.getResult()] = dagNode;
   return dagNode;
 }
 
 FailureOr<NodePtr> DagBuilder::visit(tensor::ExtractOp op) {
-  if (op.getIndices().size() > 1) return failure();
+  if (op.getIndices().size() != 1) {
+    return findNodeOrMakeNewVariable(op.getResult());
+  }
 
   auto tensor = findNodeOrMakeNewVariable(op.getTensor());
   auto index = findNodeOrMakeNewVariable(op.getIndices()[0]);
@@ -313,13 +458,15 @@ FailureOr<NodePtr> DagBuilder::visit(tensor::SplatOp op) {
 }
 
 FailureOr<NodePtr> DagBuilder::visit(arith::DivSIOp op) {
-  auto lhs = findNodeOrMakeNewVariable(op.getLhs());
-
   IntegerAttr attr;
   if (matchPattern(op.getRhs(), m_Constant(&attr))) {
     LDBG() << "Matched divSI RHS to constant scalar " << attr;
   }
+  if (!attr || attr.getInt() == 0) {
+    return findNodeOrMakeNewVariable(op.getResult());
+  }
 
+  auto lhs = findNodeOrMakeNewVariable(op.getLhs());
   auto dagNode = Node::floorDiv(lhs, attr.getInt());
   valueToNode[op.getResult()] = dagNode;
   return dagNode;
diff --git a/lib/Analysis/RotationAnalysis/DagBuilder.h b/lib/Analysis/RotationAnalysis/DagBuilder.h
index a8be741..6e2856e 100644
--- a/lib/Analysis/RotationAnalysis/DagBuilder.h
+++ b/lib/Analysis/RotationAnalysis/DagBuilder.h
@@ -18,6 +18,11 @@
 namespace mlir {
 namespace heir {
 
+/// Returns true if the evaluation of the DAG built from the loop `outermost`
+/// determines the integer `value`. Anything else is a variable in the DAG, whose
+/// evaluation yields an arbitrary value.
+bool isDetermined(Value value, Operation* outermost);
+
 /// A helper to build an ArithmeticDag from MLIR for the purpose of simulating
 /// the IR to extract rotation indices.
 class DagBuilder {
diff --git a/lib/Analysis/RotationAnalysis/RotationAnalysis.cpp b/lib/Analysis/RotationAnalysis/RotationAnalysis.cpp
index 5d24c8a..8090509 100644
--- a/lib/Analysis/RotationAnalysis/RotationAnalysis.cpp
+++ b/lib/Analysis/RotationAnalysis/RotationAnalysis.cpp
@@ -46,6 +46,27 @@ LogicalResult RotationAnalysis::handleScfFor(scf::ForOp forOp) {
   }
   LDBG() << "Analyzing rotations in scf.for op: " << forOp;
 
+  // The simulation finds all the rotations if it follows all the control flow
+  // around them and all their indices are known.
+  WalkResult walkResult = outermostFor->walk([&](RotationOpInterface rotOp) {
+    for (OpFoldResult index : rotOp.getRotationIndices()) {
+      auto value = dyn_cast<Value>(index);
+      if (value && !isDetermined(value, outermostFor)) {
+        LDBG() << "Unable to determine the index of " << rotOp;
+        return WalkResult::interrupt();
+      }
+    }
+    for (Operation* parent = rotOp->getParentOp(); parent != outermostFor;
+         parent = parent->getParentOp()) {
+      if (!isa<scf::ForOp, scf::IfOp>(parent)) {
+        LDBG() << "Unsupported control flow around " << rotOp;
+        return WalkResult::interrupt();
+      }
+    }
+    return WalkResult::advance();
+  });
+  if (walkResult.wasInterrupted()) return failure();
+
   auto numSlotsAttr = dyn_cast_or_null<IntegerAttr>(
       forOp->getParentOfType<ModuleOp>()->getAttr(kActualSlotCountAttrName));
   if (!numSlotsAttr) {
-- 
2.43.0


From e181f501799770323499b501691a5218b4ada68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 44/90] fix: keep mod_arith canonicalization from looping on
 constants and from crashing on tensors

---
 .../ModArith/IR/ModArithCanonicalization.td   | 52 +++++++++++++++----
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
index a361da9..d8c05d3 100644
--- a/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
+++ b/lib/Dialect/ModArith/IR/ModArithCanonicalization.td
@@ -13,6 +13,13 @@ def IsOne : Constraint<CPred<"isa<IntegerAttr>($0) && cast<IntegerAttr>($0).getV
 
 def IsMinusOne : Constraint<CPred<"isa<IntegerAttr>($1) && cast<IntegerAttr>($1).getValue().zextOrTrunc(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth()) == cast<ModArithType>($0.getType()).getModulus().getValue() - APInt(cast<ModArithType>($0.getType()).getModulus().getValue().getBitWidth(), 1)">>;
 
+// Reassociating constant operands only is left to the folder: the rewritten op
+// would match its own pattern again.
+def IsNotConstant : Constraint<CPred<"!$0.getDefiningOp<ConstantOp>()">>;
+
+// TODO(#1759): CreateZeroConstant only supports scalars
+def IsScalarModArith : Constraint<CPred<"isa<ModArithType>($0.getType())">>;
+
 def CreateZeroConstant : NativeCodeCall<
    "ConstantOp::create($_builder, $0.getLoc(), dyn_cast<ModArithType>($0.getType()), IntegerAttr::get(dyn_cast<ModArithType>($0.getType()).getModulus().getType(), 0));">
   ;
@@ -65,7 +72,9 @@ def AddAddConstant : Pat<
     (ModArith_AddOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add (sub (x, c0), c1) -> add (x, c1 - c0)
@@ -80,7 +89,9 @@ def AddSubConstantRHS : Pat<
     (ModArith_SubOp
       $c1,
       $c0)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add(sub(c0, x), c1) -> sub(c0 + c1, x)
@@ -95,7 +106,9 @@ def AddSubConstantLHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // add(x, mul(y, (modulus - 1))) -> sub(x, y)
@@ -156,6 +169,7 @@ def SubMulNegativeOneLhs : Pat<
       $x,
       $y)),
   [
+    (IsScalarModArith $x),
     (IsMinusOne $z, $cst),
   ]
 >;
@@ -172,7 +186,9 @@ def MulMulConstant : Pat<
     (ModArith_MulOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(add(x, c0), c1) -> add(x, c0 - c1)
@@ -187,7 +203,9 @@ def SubRHSAddConstant : Pat<
     (ModArith_SubOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, add(x, c0)) -> sub(c1 - c0, x)
@@ -202,7 +220,9 @@ def SubLHSAddConstant : Pat<
       $c1,
       $c0),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(x, c0), c1) -> sub(x, c0 + c1)
@@ -217,7 +237,9 @@ def SubRHSSubConstantRHS : Pat<
     (ModArith_AddOp
       $c0,
       $c1)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(c0, x), c1) -> sub(c0 - c1, x)
@@ -232,7 +254,9 @@ def SubRHSSubConstantLHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, sub(x, c0)) -> sub(c0 + c1, x)
@@ -247,7 +271,9 @@ def SubLHSSubConstantRHS : Pat<
       $c0,
       $c1),
     $x),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(c1, sub(c0, x)) -> add(x, c1 - c0)
@@ -262,7 +288,9 @@ def SubLHSSubConstantLHS : Pat<
     (ModArith_SubOp
       $c1,
       $c0)),
-  []
+  [
+    (IsNotConstant $x),
+  ]
 >;
 
 // sub(sub(a, b), a) -> sub(0, b)
@@ -275,7 +303,9 @@ def SubSubLHSRHSLHS : Pat<
   (ModArith_SubOp
     (CreateZeroConstant $a),
     $b),
-  []
+  [
+    (IsScalarModArith $a),
+  ]
 >;
 
 #endif  // LIB_DIALECT_MODARITH_IR_MODARITHCANONICALIZATION_TD_
-- 
2.43.0


From 83afc3f459c530f6b350d137fc34a0eb4f1121d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 45/90] fix: reduce mod_arith constants when lowering them to
 arith

---
 .../Conversions/ModArithToArith/ModArithToArith.cpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index 71ae178..fa7f115 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -311,8 +311,14 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
   LogicalResult matchAndRewrite(
       ConstantOp op, OpAdaptor adaptor,
       ConversionPatternRewriter& rewriter) const override {
-    auto constOp =
-        arith::ConstantOp::create(rewriter, op.getLoc(), adaptor.getValue());
+    // The value may be any residue representative, while the lowered ops expect
+    // their operands in [0, q).
+    auto value = adaptor.getValue();
+    OpFoldResult reduced = op.fold(ConstantOp::FoldAdaptor({}, op));
+    if (auto attr =
+            dyn_cast_if_present<TypedAttr>(dyn_cast<Attribute>(reduced)))
+      value = attr;
+    auto constOp = arith::ConstantOp::create(rewriter, op.getLoc(), value);
     rewriter.replaceOp(op, constOp);
     return success();
   }
-- 
2.43.0


From 078a1210aa1f0f8d1cd652df44b6ab10f53c5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 46/90] fix: lower mod_switch to RNS for any pair of storage
 widths

---
 .../Conversions/ModArithToArith/ModArithToArith.cpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index fa7f115..e0afb5a 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -514,11 +514,15 @@ struct ConvertModSwitch : public OpConversionPattern<ModSwitchOp> {
         for (auto basisType : outputRNS.getBasisTypes()) {
           auto modArithType = cast<ModArithType>(basisType);
           auto modulus = modArithType.getModulus().getValue();
-          modulus = modulus.zext(modWidth);
+          modulus = modulus.zextOrTrunc(modWidth);
           auto cmod = intConst(modulus);
-          auto remu = arith::RemUIOp::create(b, adaptor.getInput(), cmod);
-          auto trunci = arith::TruncIOp::create(b, rnsIntegerType, remu);
-          rnsElements.push_back(trunci);
+          Value residue = arith::RemUIOp::create(b, adaptor.getInput(), cmod);
+          if (rnsWidth < modWidth) {
+            residue = arith::TruncIOp::create(b, rnsIntegerType, residue);
+          } else if (rnsWidth > modWidth) {
+            residue = arith::ExtUIOp::create(b, rnsIntegerType, residue);
+          }
+          rnsElements.push_back(residue);
         }
         auto tensor =
             tensor::FromElementsOp::create(b, ValueRange(rnsElements));
-- 
2.43.0


From 3d97f6c8f8d4caed8c4cf53c6d6db2c8b1d26e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 47/90] fix: lower barrett_reduce for moduli wider than 21 bits

---
 .../ModArith/Conversions/ModArithToArith/ModArithToArith.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index e0afb5a..c2cd30f 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -600,7 +600,7 @@ struct ConvertBarrettReduce : public OpConversionPattern<BarrettReduceOp> {
     auto input = adaptor.getInput();
     auto mod = op.getModulus();
     auto bitWidth = (mod - 1).getActiveBits();
-    mod = mod.trunc(3 * bitWidth);
+    mod = mod.zextOrTrunc(3 * bitWidth);
     auto B = APInt(3 * bitWidth, 1).shl(2 * bitWidth);
     auto barrettRatio = B.udiv(mod);
 
-- 
2.43.0


From b1399dc6ebd1f1e4b0b678f88ec761cc5e54fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 48/90] fix: use the earlier moduli in the mixed radix
 recurrence

---
 lib/Dialect/RNS/IR/RNSOps.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/RNS/IR/RNSOps.cpp b/lib/Dialect/RNS/IR/RNSOps.cpp
index eb9085c..8fe95e2 100644
--- a/lib/Dialect/RNS/IR/RNSOps.cpp
+++ b/lib/Dialect/RNS/IR/RNSOps.cpp
@@ -1,5 +1,6 @@
 #include "lib/Dialect/RNS/IR/RNSOps.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <optional>
@@ -79,8 +80,22 @@ FailureOr<SmallVector<Value>> computeMixedRadixCoeffs(
     Value temp = mod_arith::EncapsulateOp::create(b, limbTy, mrcs[i - 1]);
     temp = mod_arith::ReduceOp::create(b, limbTy, temp);
     if (i > 1) {
-      Value qjConst =
-          mod_arith::ConstantOp::create(b, limbTy, limbTy.getModulus());
+      SmallVector<Value> qjConsts;
+      for (int j = 0; j < i - 1; ++j) {
+        APInt qj = cast<mod_arith::ModArithType>(rnsTy.getBasisTypes()[j])
+                       .getModulus()
+                       .getValue();
+        APInt qi = limbTy.getModulus().getValue();
+        unsigned width = std::max(qj.getBitWidth(), qi.getBitWidth());
+        APInt reduced = qj.zext(width).urem(qi.zext(width));
+        qjConsts.push_back(mod_arith::ConstantOp::create(
+            b, limbTy,
+            IntegerAttr::get(limbTy.getModulus().getType(),
+                             reduced.trunc(qi.getBitWidth()))));
+      }
+      Value qjConstsTensor = tensor::FromElementsOp::create(
+          b, RankedTensorType::get({static_cast<int64_t>(i - 1)}, limbTy),
+          qjConsts);
       RankedTensorType tensorTy =
           RankedTensorType::get({static_cast<int64_t>(mrcs.size())}, intType);
       Value mrcsTensor = tensor::FromElementsOp::create(b, tensorTy, mrcs);
@@ -97,6 +112,8 @@ FailureOr<SmallVector<Value>> computeMixedRadixCoeffs(
 
             // reduce c_j mod q_i
             Value cj = tensor::ExtractOp::create(b, mrcsTensor, ValueRange{j});
+            Value qjConst =
+                tensor::ExtractOp::create(b, qjConstsTensor, ValueRange{j});
             Value reducedCj = mod_arith::EncapsulateOp::create(b, limbTy, cj);
             // cj is a centered representative, meaning it could be negative
             // ModArith doesn't handle negatives well right now, so immediately
-- 
2.43.0


From 17f4a3149f68919367420bb847066fbd598bddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 49/90] fix: lower polynomial.to_tensor of a block argument

---
 .../Conversions/PolynomialToModArith/PolynomialToModArith.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
index 278d7ba..63f08f1 100644
--- a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
+++ b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
@@ -255,7 +255,7 @@ struct ConvertToTensor : public OpConversionPattern<ToTensorOp> {
   LogicalResult matchAndRewrite(
       ToTensorOp op, OpAdaptor adaptor,
       ConversionPatternRewriter& rewriter) const override {
-    rewriter.replaceOp(op, adaptor.getOperands()[0].getDefiningOp());
+    rewriter.replaceOp(op, adaptor.getInput());
     return success();
   }
 };
-- 
2.43.0


From 73ead68452a652e0727db91a1b671c7ba7635e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 50/90] fix: reduce wide and negative polynomial coefficients
 before truncating

---
 .../PolynomialToModArith.cpp                  | 47 ++++++++++---------
 lib/Dialect/Polynomial/IR/PolynomialOps.cpp   |  9 ++--
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
index 63f08f1..28b4bb3 100644
--- a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
+++ b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
@@ -181,9 +181,15 @@ Value getConstantCoefficient(Type type, int64_t value,
       });
 }
 
-std::pair<APInt, APInt> extendWidthsToLargest(const APInt& a, const APInt& b) {
-  unsigned width = std::max(a.getBitWidth(), b.getBitWidth());
-  return {a.zextOrTrunc(width), b.zextOrTrunc(width)};
+// Reduce a signed integer to its residue in [0, modulus). The result has at
+// least the widths of both arguments.
+APInt reduceSigned(const APInt& value, const APInt& modulus) {
+  unsigned width = std::max(value.getBitWidth(), modulus.getBitWidth() + 1);
+  APInt wideModulus = modulus.zext(width);
+  // APInt srem gives remainder with sign matching the sign of value.
+  APInt result = value.sext(width).srem(wideModulus);
+  if (result.isNegative()) result += wideModulus;
+  return result;
 }
 
 class PolynomialToModArithTypeConverter : public TypeConverter {
@@ -327,11 +333,9 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
         for (auto [limbIndex, basisType] :
              llvm::enumerate(rnsTy.getBasisTypes())) {
           APInt modulus = cast<ModArithType>(basisType).getModulus().getValue();
-          APInt residue = term.getCoefficient()
-                              .sextOrTrunc(modulus.getBitWidth())
-                              .srem(modulus);
-          if (residue.isNegative()) residue += modulus;
-          residues[coefficientIndex * numLimbs + limbIndex] = residue;
+          residues[coefficientIndex * numLimbs + limbIndex] =
+              reduceSigned(term.getCoefficient(), modulus)
+                  .trunc(eltStorageType.getIntOrFloatBitWidth());
         }
       }
       auto constOp = arith::ConstantOp::create(
@@ -369,16 +373,11 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
       if (auto modArithType =
               getSingleResidueModArithType(typeInfo.coefficientType)) {
         APInt modulus = (*modArithType).getModulus().getValue();
-        // APInt srem gives remainder with sign matching the sign of the
-        // context argument (here, it's the sign of coeff)
-        coeff = coeff.sextOrTrunc(modulus.getBitWidth()).srem(modulus);
-        if (coeff.isNegative()) {
-          // We need to add the modulus to get the positive remainder.
-          coeff += modulus;
-        }
-        assert(coeff.sge(0));
+        coeff = reduceSigned(coeff, modulus).trunc(modulus.getBitWidth());
       }
-      coeffs[idx] = IntegerAttr::get(eltStorageType, coeff.getSExtValue());
+      coeffs[idx] = IntegerAttr::get(
+          eltStorageType,
+          coeff.sextOrTrunc(eltStorageType.getIntOrFloatBitWidth()));
     }
 
     return llvm::TypeSwitch<Type, LogicalResult>(typeInfo.coefficientType)
@@ -1178,9 +1177,10 @@ func::FuncOp PolynomialToModArith::buildPolynomialModFunc(FunctionType funcType,
     inverses.reserve(rnsTy.getBasisTypes().size());
     for (Type basisType : rnsTy.getBasisTypes()) {
       auto modTy = cast<ModArithType>(basisType);
-      auto [leadingCoef, coeffMod] =
-          extendWidthsToLargest(rawLeadingCoef, modTy.getModulus().getValue());
-      APInt inverse = multiplicativeInverse(leadingCoef, coeffMod);
+      APInt coeffMod = modTy.getModulus().getValue();
+      APInt leadingCoef = reduceSigned(rawLeadingCoef, coeffMod);
+      APInt inverse = multiplicativeInverse(
+          leadingCoef, coeffMod.zext(leadingCoef.getBitWidth()));
       // Returning zero means no inverse was found.
       if (inverse.isZero()) signalPassFailure();
       inverses.push_back(
@@ -1194,9 +1194,10 @@ func::FuncOp PolynomialToModArith::buildPolynomialModFunc(FunctionType funcType,
         mod_arith::EncapsulateOp::create(builder, rnsTy, storageCst);
   } else {
     auto modTy = cast<ModArithType>(coeffTy);
-    auto [leadingCoef, coeffMod] =
-        extendWidthsToLargest(rawLeadingCoef, modTy.getModulus().getValue());
-    APInt inverse = multiplicativeInverse(leadingCoef, coeffMod);
+    APInt coeffMod = modTy.getModulus().getValue();
+    APInt leadingCoef = reduceSigned(rawLeadingCoef, coeffMod);
+    APInt inverse = multiplicativeInverse(
+        leadingCoef, coeffMod.zext(leadingCoef.getBitWidth()));
     if (inverse.isZero()) signalPassFailure();
     divisorLcInverse =
         getConstantCoefficient(coeffTy, inverse.getSExtValue(), builder);
diff --git a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
index 976b55f..6876b6f 100644
--- a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
+++ b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
@@ -757,9 +757,12 @@ static std::optional<RNSPolynomial> getSingleLimbRNSPolynomial(
     uint64_t exponent = term.getExponent().getZExtValue();
     if (exponent >= degree) return std::nullopt;
 
-    APInt coeff = term.getCoefficient().sextOrTrunc(modulus.getBitWidth());
-    coeff = coeff.srem(modulus);
-    if (coeff.isNegative()) coeff += modulus;
+    // Reduce at a width that holds both the coefficient and the modulus.
+    unsigned width = std::max(term.getCoefficient().getBitWidth(),
+                              modulus.getBitWidth() + 1);
+    APInt wideModulus = modulus.zext(width);
+    APInt coeff = term.getCoefficient().sext(width).srem(wideModulus);
+    if (coeff.isNegative()) coeff += wideModulus;
     data[exponent] = coeff.getZExtValue();
   }
 
-- 
2.43.0


From 1f5e7777269d2099aff69f8bb02f1ff00b90e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 51/90] fix: reject polynomial constants with terms past the
 ring degree

---
 .../PolynomialToModArith/PolynomialToModArith.cpp        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
index 28b4bb3..864d913 100644
--- a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
+++ b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
@@ -317,6 +317,15 @@ struct ConvertConstant : public OpConversionPattern<ConstantOp> {
     SmallVector<Attribute> coeffs;
     Type eltStorageType = typeInfo.coefficientStorageType;
 
+    const IntPolynomial& constantPoly = attr.getValue().getPolynomial();
+    for (const auto& term : constantPoly.getTerms()) {
+      if (term.getExponent().uge(typeInfo.tensorType.getShape()[0])) {
+        return op.emitOpError()
+               << "has a term whose degree is not less than the degree of the "
+                  "polynomial modulus";
+      }
+    }
+
     // RNS coefficients require one stored integer per residue. Materialize a
     // degree-by-limb tensor and reduce each integer polynomial coefficient
     // separately in every residue modulus.
-- 
2.43.0


From 9cf67c68d4bb4112ac6637c1068fc6e1313bb7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 52/90] fix: lower polynomial products of degree-one rings and
 skip integer rings

---
 .../PolynomialToModArith/PolynomialToModArith.cpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
index 864d913..24c41fc 100644
--- a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
+++ b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
@@ -1042,6 +1042,11 @@ void PolynomialToModArith::generateOpImplementations() {
       return WalkResult::advance();
     }
 
+    // Products with other coefficient types are not lowered.
+    if (!isa<ModArithType, RNSType>(polyTy.getRing().getCoefficientType())) {
+      return WalkResult::advance();
+    }
+
     auto convType = polymulOutputTensorType(polyTy);
     auto postReductionType = convertPolynomialType(polyTy);
     FunctionType funcType =
@@ -1134,6 +1139,12 @@ func::FuncOp PolynomialToModArith::buildPolynomialModFunc(FunctionType funcType,
 
   builder.setInsertionPointToStart(funcBody);
 
+  // A product of constants is already reduced.
+  if (inputType == resultType) {
+    func::ReturnOp::create(builder, coeffsArg);
+    return funcOp;
+  }
+
   // Implementing the textbook division algorithm
   //
   // def divmod(poly, divisor):
-- 
2.43.0


From 5f9a86ea7fef11e1ddd7aa4a5342f31ab6a50320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 53/90] fix: fold polynomial products only modulo x^N+1

---
 lib/Dialect/Polynomial/IR/PolynomialOps.cpp | 33 ++++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
index 6876b6f..dc2004b 100644
--- a/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
+++ b/lib/Dialect/Polynomial/IR/PolynomialOps.cpp
@@ -625,6 +625,14 @@ LogicalResult ApplyCoefficientwiseOp::verify() {
 
 OpFoldResult ConstantOp::fold(FoldAdaptor adaptor) { return getValue(); }
 
+// Returns true if the polynomial is of the form X^N+1.
+static bool isNegacyclicModulus(const IntPolynomial& polynomialModulus) {
+  ArrayRef<IntMonomial> terms = polynomialModulus.getTerms();
+  return terms.size() == 2 && terms.front().getExponent().isZero() &&
+         terms.front().getCoefficient().isOne() &&
+         terms.back().getCoefficient().isOne();
+}
+
 OpFoldResult MonomialOp::fold(FoldAdaptor adaptor) {
   auto degreeAttr = dyn_cast_or_null<IntegerAttr>(adaptor.getDegree());
   if (!degreeAttr) return nullptr;
@@ -645,7 +653,10 @@ OpFoldResult MonomialOp::fold(FoldAdaptor adaptor) {
     if (!rnsType || coefficientAttr.getType() != rnsType) return nullptr;
 
     auto polyModAttr = polyType.getRing().getPolynomialModulus();
-    if (!polyModAttr) return nullptr;
+    // RNS polynomial attributes only exist in rings with this modulus.
+    if (!polyModAttr || !isNegacyclicModulus(polyModAttr.getPolynomial())) {
+      return nullptr;
+    }
 
     uint64_t numCoeffs = polyModAttr.getPolynomial().getDegree();
     uint64_t degreeValue = degree.getZExtValue();
@@ -808,15 +819,9 @@ static TypedIntPolynomialAttr getTypedIntPolynomialAttrFromAPInts(
 
 static std::optional<SmallVector<APInt>> reduceModuloPolynomial(
     ArrayRef<APInt> coeffs, const IntPolynomial& polynomialModulus) {
-  ArrayRef<IntMonomial> modulusTerms = polynomialModulus.getTerms();
   // this function is only correct when the polynomial modulus is of the form
   // X^N+1
-  if (modulusTerms.size() != 2 ||
-      !modulusTerms.front().getExponent().isZero() ||
-      !modulusTerms.front().getCoefficient().isOne() ||
-      !modulusTerms.back().getCoefficient().isOne()) {
-    return std::nullopt;
-  }
+  if (!isNegacyclicModulus(polynomialModulus)) return std::nullopt;
   uint64_t modulusDegree = polynomialModulus.getDegree();
 
   SmallVector<APInt> result;
@@ -1071,6 +1076,16 @@ OpFoldResult SubOp::fold(FoldAdaptor adaptor) {
       });
 }
 
+// RNSPolynomial multiplies polynomials in coefficient form modulo X^N+1, so
+// its product is only valid in a ring with this modulus.
+static bool canMulAsRNSPolynomial(Type type) {
+  auto polyType = dyn_cast<PolynomialType>(type);
+  if (!polyType) return false;
+  if (polyType.getForm() == Form::EVAL) return true;
+  IntPolynomialAttr polyMod = polyType.getRing().getPolynomialModulus();
+  return polyMod && isNegacyclicModulus(polyMod.getPolynomial());
+}
+
 OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
   auto lhsAttr = dyn_cast_or_null<RNSPolynomialAttr>(adaptor.getLhs());
   auto rhsAttr = dyn_cast_or_null<RNSPolynomialAttr>(adaptor.getRhs());
@@ -1082,6 +1097,7 @@ OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
       return nullptr;
     }
 
+    if (!canMulAsRNSPolynomial(getResult().getType())) return nullptr;
     std::optional<RNSPolynomial> resultPolyOpt = lhsPoly.mul(rhsPoly);
     if (!resultPolyOpt) return nullptr;
     RNSPolynomial resultPoly = *resultPolyOpt;
@@ -1107,6 +1123,7 @@ OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
     auto lhs = getSingleLimbRNSPolynomial(lhsIntAttr, lhsPoly);
     auto rhs = getSingleLimbRNSPolynomial(rhsIntAttr, rhsPoly);
     if (lhs && rhs) {
+      if (!canMulAsRNSPolynomial(getResult().getType())) return nullptr;
       std::optional<RNSPolynomial> resultOpt = lhs->mul(*rhs);
       if (!resultOpt) return nullptr;
       RNSPolynomial result = *resultOpt;
-- 
2.43.0


From 5940b6c86841eb7f53316cf7366c1d7dde87270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 54/90] fix: fold the NTT to values in natural order

---
 lib/Utils/Polynomial/RNSPolynomial.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/Utils/Polynomial/RNSPolynomial.cpp b/lib/Utils/Polynomial/RNSPolynomial.cpp
index 7a589c3..3760902 100644
--- a/lib/Utils/Polynomial/RNSPolynomial.cpp
+++ b/lib/Utils/Polynomial/RNSPolynomial.cpp
@@ -15,6 +15,18 @@ namespace mlir {
 namespace heir {
 namespace polynomial {
 
+// nttInPlace and inttInPlace produce, resp. expect, the values in bit-reversed
+// order, while the eval form of a polynomial stores them in natural order.
+static void bitReverseInPlace(std::vector<uint64_t>& values) {
+  size_t n = values.size();
+  for (size_t i = 1, j = 0; i < n; ++i) {
+    size_t bit = n >> 1;
+    for (; j & bit; bit >>= 1) j ^= bit;
+    j ^= bit;
+    if (i < j) std::swap(values[i], values[j]);
+  }
+}
+
 RNSPolynomial::RNSPolynomial(llvm::SmallVector<uint64_t> data,
                              llvm::SmallVector<uint64_t> moduli,
                              Form representation)
@@ -170,6 +182,7 @@ std::optional<RNSPolynomial> RNSPolynomial::toNtt(
     }
 
     nttInPlace(limbCoeffs, modulus, rootOfUnity);
+    bitReverseInPlace(limbCoeffs);
     resultData.insert(resultData.end(), limbCoeffs.begin(), limbCoeffs.end());
   }
 
@@ -224,6 +237,7 @@ std::optional<RNSPolynomial> RNSPolynomial::toCoefficient(
       limbCoeffs.push_back(getElement(limbIdx, coeffIdx));
     }
 
+    bitReverseInPlace(limbCoeffs);
     inttInPlace(limbCoeffs, modulus, rootOfUnity);
     resultData.insert(resultData.end(), limbCoeffs.begin(), limbCoeffs.end());
   }
-- 
2.43.0


From 7df430c51bfacb5cd6caa33128aac576e22e7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 55/90] fix: avoid overflow when adding residues of 64-bit
 moduli

---
 lib/Utils/Polynomial/RNSPolynomial.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/Polynomial/RNSPolynomial.cpp b/lib/Utils/Polynomial/RNSPolynomial.cpp
index 3760902..02d65cd 100644
--- a/lib/Utils/Polynomial/RNSPolynomial.cpp
+++ b/lib/Utils/Polynomial/RNSPolynomial.cpp
@@ -53,10 +53,8 @@ RNSPolynomial RNSPolynomial::add(const RNSPolynomial& other) const {
     for (size_t coeffIdx = 0; coeffIdx < numCoeffs; ++coeffIdx) {
       uint64_t a = getElement(limbIdx, coeffIdx);
       uint64_t b = other.getElement(limbIdx, coeffIdx);
-      uint64_t sum = a + b;
-      if (sum >= modulus) {
-        sum -= modulus;
-      }
+      // Avoid overflow of a + b for moduli of 64 bits.
+      uint64_t sum = a >= modulus - b ? a - (modulus - b) : a + b;
       resultData.push_back(sum);
     }
   }
-- 
2.43.0


From 71da328fd4816577b3fc13ee5770d50da93f8fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 56/90] fix: find no root of unity modulo a composite number
 that has none

---
 lib/Utils/MathUtils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/MathUtils.cpp b/lib/Utils/MathUtils.cpp
index 9c3736d..ac4e86c 100644
--- a/lib/Utils/MathUtils.cpp
+++ b/lib/Utils/MathUtils.cpp
@@ -103,7 +103,12 @@ std::optional<APInt> findPrimitive2nthRoot(const APInt& q, uint64_t n) {
   if (!g) return std::nullopt;
 
   APInt exponent = (q - 1).udiv(two_n_ap);
-  return modularExponentiation(*g, exponent, q);
+  APInt root = modularExponentiation(*g, exponent, q);
+  // If q is not prime, the candidate may not be a primitive 2nth root.
+  if (modularExponentiation(root, APInt(q.getBitWidth(), n), q) != q - 1) {
+    return std::nullopt;
+  }
+  return root;
 }
 
 }  // namespace heir
-- 
2.43.0


From f13fc1f420c56e36c4137b7b1a835d6084951576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 57/90] fix: relinearize products of a value that was just
 relinearized

---
 lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp b/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp
index b7f2152..853f0e2 100644
--- a/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp
+++ b/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtPatterns.cpp
@@ -92,6 +92,11 @@ LogicalResult MultRelinearize<MulOp>::matchAndRewrite(
 
   // if mul const, skip
   for (auto operand : mulOp.getOperands()) {
+    // The result of an earlier mulOp may have just been replaced by its
+    // relinearization, which the solver has no state for.
+    if (auto relinearizeOp = operand.template getDefiningOp<mgmt::RelinearizeOp>()) {
+      operand = relinearizeOp.getInput();
+    }
     auto secret = isSecret(operand, solver);
     if (!secret) {
       return rewriter.notifyMatchFailure(mulOp, "operands must be secret");
-- 
2.43.0


From 00515921efc2c3b0f53bf5cd89b272180a01a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 58/90] fix: reject BFV programs whose multiplicative depth is
 unbounded

---
 lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.cpp     |  8 +++++++-
 lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.h       |  4 +++-
 .../SecretInsertMgmt/SecretInsertMgmtBFV.cpp           | 10 +++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.cpp b/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.cpp
index 1e42bb2..a2d957e 100644
--- a/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.cpp
+++ b/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.cpp
@@ -109,8 +109,9 @@ void MulDepthAnalysis::visitExternalCall(
       call, argumentLattices, resultLattices, callback);
 }
 
-int64_t getMaxMulDepth(Operation* op, DataFlowSolver& solver) {
+FailureOr<int64_t> getMaxMulDepth(Operation* op, DataFlowSolver& solver) {
   int64_t maxMulDepth = 0;
+  bool bounded = true;
   op->walk([&](Operation* op) {
     if (op->getNumResults() == 0) {
       return;
@@ -124,8 +125,13 @@ int64_t getMaxMulDepth(Operation* op, DataFlowSolver& solver) {
     if (!state.isInitialized()) {
       return;
     }
+    if (state.isInvalid()) {
+      bounded = false;
+      return;
+    }
     maxMulDepth = std::max(maxMulDepth, state.getMulDepth());
   });
+  if (!bounded) return failure();
   return maxMulDepth;
 }
 
diff --git a/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.h b/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.h
index a34e6ca..97369d3 100644
--- a/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.h
+++ b/lib/Analysis/MulDepthAnalysis/MulDepthAnalysis.h
@@ -142,7 +142,9 @@ class MulDepthAnalysis
 MulDepthState deriveResultMulDepth(Operation* op,
                                    ArrayRef<const MulDepthLattice*> operands);
 
-int64_t getMaxMulDepth(Operation* op, DataFlowSolver& solver);
+// Returns failure if the multiplicative depth of some value is not bounded,
+// e.g. because it grows in each iteration of a loop.
+FailureOr<int64_t> getMaxMulDepth(Operation* op, DataFlowSolver& solver);
 
 }  // namespace heir
 }  // namespace mlir
diff --git a/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtBFV.cpp b/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtBFV.cpp
index bd488bb..35b9e2e 100644
--- a/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtBFV.cpp
+++ b/lib/Transforms/SecretInsertMgmt/SecretInsertMgmtBFV.cpp
@@ -70,7 +70,15 @@ struct SecretInsertMgmtBFV
     }
 
     if (!hasSchemeParam) {
-      maxMulDepth = getMaxMulDepth(getOperation(), solver);
+      auto analyzedMulDepth = getMaxMulDepth(getOperation(), solver);
+      if (failed(analyzedMulDepth)) {
+        getOperation()->emitOpError()
+            << "The multiplicative depth exceeds the budget or is not bounded; "
+               "loops may have to be unrolled first.\n";
+        signalPassFailure();
+        return;
+      }
+      maxMulDepth = *analyzedMulDepth;
     }
 
     insertMgmtInitForPlaintexts(getOperation(), true);
-- 
2.43.0


From c0ed0eed37d18db46e886037e41a2663aad4210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 59/90] fix: let a BGV mgmt.init take the scale its users need

---
 lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp  |  9 ++-
 .../PopulateScale/PopulateScaleBGV.cpp        | 55 ++++++++++++++-----
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp b/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
index b3e7945..1b4c548 100644
--- a/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
+++ b/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
@@ -207,7 +207,12 @@ LogicalResult ScaleAnalysis<ScaleModelT>::visitOperation(
     for (auto* operand : secretOperands) {
       auto operandState = this->getLatticeElement(operand->get())->getValue();
       if (!operandState.isInitialized()) {
-        if (isAdaptable(operand->get())) {
+        // Without a default scale, a plaintext is encoded at the scale required
+        // by its uses, which is found by the backward analysis.
+        bool isAdaptableInit =
+            !ScaleModelT::getDefaultScale(schemeParam).has_value() &&
+            isa_and_nonnull<mgmt::InitOp>(operand->get().getDefiningOp());
+        if (isAdaptableInit || isAdaptable(operand->get())) {
           continue;
         }
         return failure();
@@ -293,7 +298,7 @@ LogicalResult ScaleAnalysis<ScaleModelT>::visitOperation(
         if (mgmtAttr && mgmtAttr.getScale() != -1) {
           propagate(initOp.getResult(),
                     ScaleState<ScaleModelT>(mgmtAttr.getScale()));
-        } else {
+        } else if (ScaleModelT::getDefaultScale(schemeParam).has_value()) {
           propagate(initOp.getResult(), ScaleState<ScaleModelT>(inputScale));
         }
       })
diff --git a/lib/Transforms/PopulateScale/PopulateScaleBGV.cpp b/lib/Transforms/PopulateScale/PopulateScaleBGV.cpp
index 3839946..4ffbedc 100644
--- a/lib/Transforms/PopulateScale/PopulateScaleBGV.cpp
+++ b/lib/Transforms/PopulateScale/PopulateScaleBGV.cpp
@@ -5,6 +5,9 @@
 #include "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h"
 #include "lib/Dialect/BGV/IR/BGVAttributes.h"
 #include "lib/Dialect/BGV/IR/BGVDialect.h"
+#include "lib/Dialect/Mgmt/IR/MgmtAttributes.h"
+#include "lib/Dialect/Mgmt/IR/MgmtDialect.h"
+#include "lib/Dialect/Mgmt/IR/MgmtOps.h"
 #include "lib/Dialect/Mgmt/Transforms/AnnotateMgmt.h"
 #include "lib/Dialect/ModuleAttributes.h"
 #include "lib/Parameters/BGV/Params.h"
@@ -62,21 +65,45 @@ struct PopulateScaleBGV : impl::PopulateScaleBGVBase<PopulateScaleBGV> {
         getOperation()->getAttr(bgv::BGVDialect::kSchemeParamAttrName));
     auto t = bgvSchemeParamAttr.getPlaintextModulus();
 
-    DataFlowSolver solver;
-    SymbolTableCollection symbolTable;
-    dataflow::loadBaselineAnalyses(solver);
-    // ScaleAnalysis depends on SecretnessAnalysis
-    solver.load<SecretnessAnalysis>();
     // set input scale to 1, which is arbitrary.
-    solver.load<ScaleAnalysis<BGVScaleModel>>(
-        bgv::SchemeParam::getSchemeParamFromAttr(bgvSchemeParamAttr),
-        /*inputScale*/ 1);
-    // Back-prop ScaleAnalysis depends on (forward) ScaleAnalysis
-    solver.load<ScaleAnalysisBackward<BGVScaleModel>>(
-        symbolTable,
-        bgv::SchemeParam::getSchemeParamFromAttr(bgvSchemeParamAttr));
-
-    if (failed(solver.initializeAndRun(getOperation()))) {
+    const int64_t inputScale = 1;
+    SymbolTableCollection symbolTable;
+    auto runAnalysis = [&](DataFlowSolver& solver) {
+      dataflow::loadBaselineAnalyses(solver);
+      // ScaleAnalysis depends on SecretnessAnalysis
+      solver.load<SecretnessAnalysis>();
+      solver.load<ScaleAnalysis<BGVScaleModel>>(
+          bgv::SchemeParam::getSchemeParamFromAttr(bgvSchemeParamAttr),
+          inputScale);
+      // Back-prop ScaleAnalysis depends on (forward) ScaleAnalysis
+      solver.load<ScaleAnalysisBackward<BGVScaleModel>>(
+          symbolTable,
+          bgv::SchemeParam::getSchemeParamFromAttr(bgvSchemeParamAttr));
+      return solver.initializeAndRun(getOperation());
+    };
+
+    DataFlowSolver initSolver;
+    if (failed(runAnalysis(initSolver))) {
+      getOperation()->emitOpError() << "Failed to run the analysis.\n";
+      signalPassFailure();
+      return;
+    }
+
+    // A plaintext for which the uses require no particular scale, e.g. because
+    // it is combined with other plaintexts only, is encoded at the input scale.
+    getOperation()->walk([&](mgmt::InitOp initOp) {
+      auto* lattice = initSolver.lookupState<ScaleLattice<BGVScaleModel>>(
+          initOp.getResult());
+      auto mgmtAttr = mgmt::findMgmtAttrAssociatedWith(initOp.getResult());
+      if (!mgmtAttr || (lattice && lattice->getValue().isInitialized())) return;
+      initOp->setAttr(
+          mgmt::MgmtDialect::kArgMgmtAttrName,
+          mgmt::MgmtAttr::get(&getContext(), mgmtAttr.getLevel(),
+                              mgmtAttr.getDimension(), inputScale));
+    });
+
+    DataFlowSolver solver;
+    if (failed(runAnalysis(solver))) {
       getOperation()->emitOpError() << "Failed to run the analysis.\n";
       signalPassFailure();
       return;
-- 
2.43.0


From a89676273432318f3e48576ae7d902e0f681588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 60/90] fix: level-reduce all branches when one of them yields
 the max level

---
 lib/Transforms/Halo/Patterns.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/Transforms/Halo/Patterns.cpp b/lib/Transforms/Halo/Patterns.cpp
index a18014d..2acfe40 100644
--- a/lib/Transforms/Halo/Patterns.cpp
+++ b/lib/Transforms/Halo/Patterns.cpp
@@ -478,13 +478,33 @@ LogicalResult RegionBranchOpLevelInvariancePattern::matchAndRewrite(
 
     // Collect levels for all yielding operands.
     SmallVector<int64_t> levels;
+    SmallVector<OpOperand*> operandsWithLevel;
+    bool anyMaxLevel = false;
     for (OpOperand* operand : yieldingOperands) {
       auto* levelLattice = solver->lookupState<LevelLattice>(operand->get());
+      if (levelLattice && levelLattice->getValue().isMaxLevel()) {
+        anyMaxLevel = true;
+        continue;
+      }
       if (!levelLattice || !levelLattice->getValue().isInt()) {
         // If level is not an int, we cannot easily reconcile it.
         continue;
       }
       levels.push_back(levelLattice->getValue().getInt());
+      operandsWithLevel.push_back(operand);
+    }
+
+    // If a branch yields a value that has been reduced to the minimum level,
+    // then the other branches must do so, too.
+    if (anyMaxLevel) {
+      for (OpOperand* operand : operandsWithLevel) {
+        rewriter.setInsertionPoint(operand->getOwner());
+        auto reduceOp = mgmt::LevelReduceMinOp::create(rewriter, op.getLoc(),
+                                                       operand->get());
+        rewriter.modifyOpInPlace(operand->getOwner(),
+                                 [&]() { operand->set(reduceOp.getResult()); });
+        changed = true;
+      }
     }
 
     // Reconcile levels if we have all of them.
-- 
2.43.0


From 3305ce02a19f1223f6566b45c323c34fe6ef9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 61/90] fix: compute comparisons, not their opposites, from
 signs, for ugt and tensors too

---
 lib/Transforms/CompareToSignRewrite/BUILD     |  1 +
 .../CompareToSignRewrite.cpp                  | 60 +++++++++++--------
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/lib/Transforms/CompareToSignRewrite/BUILD b/lib/Transforms/CompareToSignRewrite/BUILD
index 78762c5..9073443 100644
--- a/lib/Transforms/CompareToSignRewrite/BUILD
+++ b/lib/Transforms/CompareToSignRewrite/BUILD
@@ -13,6 +13,7 @@ cc_library(
     deps = [
         ":pass_inc_gen",
         "@heir//lib/Dialect/MathExt/IR:Dialect",
+        "@heir//lib/Utils",
         "@llvm-project//mlir:ArithDialect",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:MathDialect",
diff --git a/lib/Transforms/CompareToSignRewrite/CompareToSignRewrite.cpp b/lib/Transforms/CompareToSignRewrite/CompareToSignRewrite.cpp
index e70ead2..eab3df6 100644
--- a/lib/Transforms/CompareToSignRewrite/CompareToSignRewrite.cpp
+++ b/lib/Transforms/CompareToSignRewrite/CompareToSignRewrite.cpp
@@ -3,11 +3,13 @@
 #include <utility>
 
 #include "lib/Dialect/MathExt/IR/MathExtOps.h"
+#include "lib/Utils/Utils.h"
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinTypeInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Location.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
+#include "mlir/include/mlir/IR/TypeUtilities.h"          // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 #include "mlir/include/mlir/Transforms/WalkPatternRewriteDriver.h"  // from @llvm-project
@@ -23,7 +25,7 @@ struct CompareToSignRewrite
   using CompareToSignRewriteBase::CompareToSignRewriteBase;
 
   // Pattern for arith.cmpf a < b and b >a,
-  // assuming we can multiply with 1/2: a < b -> 0.5*(sign(a - b)+1)
+  // assuming we can multiply with 1/2: a < b -> 0.5*(sign(b - a)+1)
   // Note that we ignore ordered/unordered comparison subtletlies here,
   // as this kind of arithmetization assumes no NaN/Inf values anyway.
   struct CmpFOpRewritePattern : public OpRewritePattern<arith::CmpFOp> {
@@ -33,31 +35,31 @@ struct CompareToSignRewrite
                                   PatternRewriter& rewriter) const override {
       Value lhs = op.getLhs();
       Value rhs = op.getRhs();
-      Value sub;  // will be set to a - b for a < b or b - a for b > a
-      auto floatType = cast<FloatType>(lhs.getType());
+      Value sub;  // will be set to b - a for a < b or a - b for a > b
+      Type type = lhs.getType();
 
       if (op.getPredicate() == arith::CmpFPredicate::OLT ||
           op.getPredicate() == arith::CmpFPredicate::ULT)
-        sub = arith::SubFOp::create(rewriter, op.getLoc(), lhs, rhs);
+        sub = arith::SubFOp::create(rewriter, op.getLoc(), rhs, lhs);
       else if (op.getPredicate() == arith::CmpFPredicate::OGT ||
                op.getPredicate() == arith::CmpFPredicate::UGT)
-        sub = arith::SubFOp::create(rewriter, op.getLoc(), rhs, lhs);
+        sub = arith::SubFOp::create(rewriter, op.getLoc(), lhs, rhs);
       else
         // This pattern does not handle equality
         return failure();
 
       // Rewrite to 0.5 * (sign(<sub>) + 1)
       Value sign = math_ext::SignOp::create(rewriter, op.getLoc(), sub);
-      auto oneAttr = rewriter.getFloatAttr(floatType, 1.0);
+      auto oneAttr = getScalarOrDenseAttr(type, APFloat(1.0));
       Value one = arith::ConstantOp::create(rewriter, op.getLoc(), oneAttr);
-      auto halfAttr = rewriter.getFloatAttr(floatType, 0.5);
+      auto halfAttr = getScalarOrDenseAttr(type, APFloat(0.5));
       Value half = arith::ConstantOp::create(rewriter, op.getLoc(), halfAttr);
       Value result = arith::AddFOp::create(rewriter, op.getLoc(), sign, one);
       result = arith::MulFOp::create(rewriter, op.getLoc(), result, half);
 
       // Convert back to i1 for consistency with the original op
       result =
-          arith::FPToSIOp::create(rewriter, op.getLoc(), op.getType(), result);
+          arith::FPToUIOp::create(rewriter, op.getLoc(), op.getType(), result);
 
       rewriter.replaceOp(op, result);
       return success();
@@ -87,37 +89,43 @@ struct CompareToSignRewrite
           op.getPredicate() != arith::CmpIPredicate::ugt)
         return failure();  // this pattern does not handle equality
 
+      // Shaped operands keep their shape.
+      auto withElementType = [&](Type elementType) -> Type {
+        if (auto shapedType = dyn_cast<ShapedType>(lhs.getType()))
+          return shapedType.clone(elementType);
+        return elementType;
+      };
+
       // (index types must be converted to i32 before we can cast to f32)
-      if (lhs.getType().isIndex())
-        lhs = arith::IndexCastOp::create(rewriter, loc, rewriter.getI32Type(),
-                                         lhs);
-      if (rhs.getType().isIndex())
-        rhs = arith::IndexCastOp::create(rewriter, loc, rewriter.getI32Type(),
-                                         rhs);
+      if (getElementTypeOrSelf(lhs.getType()).isIndex()) {
+        Type i32Type = withElementType(rewriter.getI32Type());
+        lhs = arith::IndexCastOp::create(rewriter, loc, i32Type, lhs);
+        rhs = arith::IndexCastOp::create(rewriter, loc, i32Type, rhs);
+      }
       //   Convert to f32 for the arithmetic
-      lhs = arith::SIToFPOp::create(rewriter, loc, rewriter.getF32Type(), lhs);
-      rhs = arith::SIToFPOp::create(rewriter, loc, rewriter.getF32Type(), rhs);
+      Type f32Type = withElementType(rewriter.getF32Type());
+      lhs = arith::SIToFPOp::create(rewriter, loc, f32Type, lhs);
+      rhs = arith::SIToFPOp::create(rewriter, loc, f32Type, rhs);
 
-      Value sub;  // will be set to a - b for a < b or b - a for b > a
+      Value sub;  // will be set to b - a for a < b or a - b for a > b
       if (op.getPredicate() == arith::CmpIPredicate::slt ||
           op.getPredicate() == arith::CmpIPredicate::ult)
-        sub = arith::SubFOp::create(rewriter, loc, lhs, rhs);
-      else if (op.getPredicate() == arith::CmpIPredicate::sgt ||
-               op.getPredicate() == arith::CmpIPredicate::uge)
         sub = arith::SubFOp::create(rewriter, loc, rhs, lhs);
+      else if (op.getPredicate() == arith::CmpIPredicate::sgt ||
+               op.getPredicate() == arith::CmpIPredicate::ugt)
+        sub = arith::SubFOp::create(rewriter, loc, lhs, rhs);
 
       // Rewrite to 0.5 * (sign(<sub>) + 1)
       Value sign = math_ext::SignOp::create(rewriter, loc, sub);
-      Value one = arith::ConstantFloatOp::create(
-          rewriter, loc, rewriter.getF32Type(), APFloat(1.0f));
-
-      Value half = arith::ConstantFloatOp::create(
-          rewriter, loc, rewriter.getF32Type(), APFloat(0.5f));
+      Value one = arith::ConstantOp::create(
+          rewriter, loc, getScalarOrDenseAttr(f32Type, APFloat(1.0f)));
+      Value half = arith::ConstantOp::create(
+          rewriter, loc, getScalarOrDenseAttr(f32Type, APFloat(0.5f)));
       Value result = arith::AddFOp::create(rewriter, loc, sign, one);
       result = arith::MulFOp::create(rewriter, loc, result, half);
 
       // Convert back to i1 for consistency with the original op
-      result = arith::FPToSIOp::create(rewriter, loc, op.getType(), result);
+      result = arith::FPToUIOp::create(rewriter, loc, op.getType(), result);
 
       rewriter.replaceOp(op, result);
       return success();
-- 
2.43.0


From 491b1830d417bb13063fa2435e8de5e7d5725203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 62/90] fix: recognize plaintext masks of index type

---
 lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.cpp b/lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.cpp
index bfe6297..6ac66a4 100644
--- a/lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.cpp
+++ b/lib/Transforms/FoldPlaintextMasks/FoldPlaintextMasks.cpp
@@ -110,7 +110,7 @@ DenseFPElementsAttr intersectFloatMasks(Value mask1, Value mask2) {
 }
 
 DenseElementsAttr intersectMasks(Value mask1, Value mask2) {
-  if (isa<IntegerType>(getElementTypeOrSelf(mask1.getType()))) {
+  if (isa<IntegerType, IndexType>(getElementTypeOrSelf(mask1.getType()))) {
     return intersectIntMasks(mask1, mask2);
   }
 
@@ -118,7 +118,7 @@ DenseElementsAttr intersectMasks(Value mask1, Value mask2) {
 }
 
 bool isOneHotVector(Value mask) {
-  if (isa<IntegerType>(getElementTypeOrSelf(mask.getType()))) {
+  if (isa<IntegerType, IndexType>(getElementTypeOrSelf(mask.getType()))) {
     return isIntegerOneHotVector(mask);
   }
 
-- 
2.43.0


From b991c6c62c64e6cf3df6c50613042ed76ab6286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 63/90] fix: lower monomial polynomials above the Horner degree
 by default

---
 lib/Transforms/LowerPolynomialEval/Patterns.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Transforms/LowerPolynomialEval/Patterns.cpp b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
index adce8d9..fac11cc 100644
--- a/lib/Transforms/LowerPolynomialEval/Patterns.cpp
+++ b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
@@ -131,7 +131,7 @@ LogicalResult LowerViaPatersonStockmeyerMonomial::matchAndRewrite(
   auto terms = polynomial.getTerms();
   int64_t maxDegree = terms.back().getExponent().getSExtValue();
   const int degreeThreshold = 5;
-  if (!shouldForce() && maxDegree > degreeThreshold) return failure();
+  if (!shouldForce() && maxDegree <= degreeThreshold) return failure();
 
   // Only support floating point element types
   auto floatTy =
-- 
2.43.0


From 8c16272a9f4af998b8d6017a06578f30e848d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 64/90] fix: lower a Chebyshev series without significant
 coefficients

---
 lib/Transforms/LowerPolynomialEval/Patterns.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Transforms/LowerPolynomialEval/Patterns.cpp b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
index fac11cc..ec0ad1c 100644
--- a/lib/Transforms/LowerPolynomialEval/Patterns.cpp
+++ b/lib/Transforms/LowerPolynomialEval/Patterns.cpp
@@ -221,6 +221,12 @@ LogicalResult LowerViaPatersonStockmeyerChebyshev::matchAndRewrite(
 
   auto resultNode = polynomial::patersonStockmeyerChebyshevPolynomialEvaluation(
       xNode, chebCoeffs, getMinCoefficientThreshold(), dagType);
+  if (!resultNode) {
+    // All the coefficients are negligible.
+    rewriter.replaceOpWithNewOp<arith::ConstantOp>(
+        op, op.getType(), getScalarOrDenseAttr(op.getType(), APFloat(0.0)));
+    return success();
+  }
   IRMaterializingVisitor visitor(op.getValue().getType());
   Value finalOutput = visitor.process(resultNode, b)[0];
 
-- 
2.43.0


From f9914af0e72f560ed11682785b7def33f7a9b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 65/90] fix: splat the scalar condition of a select of float
 tensors

---
 lib/Transforms/SelectRewrite/SelectRewrite.td | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/SelectRewrite/SelectRewrite.td b/lib/Transforms/SelectRewrite/SelectRewrite.td
index d869b22..1274326 100644
--- a/lib/Transforms/SelectRewrite/SelectRewrite.td
+++ b/lib/Transforms/SelectRewrite/SelectRewrite.td
@@ -47,9 +47,10 @@ def SelectRewritePatternInt : Pattern<
 def SelectRewritePatternFloat : Pattern<
   (SelectOp $cond, FloatLike:$true_value, $false_value),
   [
-    (Arith_ConstantOp:$one (getMatchingOne $cond)),
-    (Arith_SubIOp:$not_cond $one, $cond, DefOverflow),
-    (Arith_UIToFPOp:$ext_cond $cond, (GetNullAttr), (returnType $true_value)),
+    (matchShapedType:$new_cond $cond, $true_value),
+    (Arith_ConstantOp:$one (getMatchingOne $new_cond)),
+    (Arith_SubIOp:$not_cond $one, $new_cond, DefOverflow),
+    (Arith_UIToFPOp:$ext_cond $new_cond, (GetNullAttr), (returnType $true_value)),
     (Arith_MulFOp:$true_mul $ext_cond, $true_value, DefFastMath, (GetNullAttr)),
     (Arith_UIToFPOp:$ext_not_cond $not_cond, (GetNullAttr), (returnType $false_value)),
     (Arith_MulFOp:$false_mul $ext_not_cond, $false_value, DefFastMath, (GetNullAttr)),
-- 
2.43.0


From 150a79220d4440196540dc7a74b3bbcf698cb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 66/90] fix: lower elementwise operations on tensors of rank 0

---
 lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp b/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp
index 1150626..e73ac8e 100644
--- a/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp
+++ b/lib/Transforms/ElementwiseToAffine/ElementwiseToAffine.cpp
@@ -238,6 +238,12 @@ struct ConvertAnyElementwiseMappableOpOnRankedTensors : public RewritePattern {
         rewriter, op->getLoc(), scalarOp->getResult(tensorResultIndex), target,
         indices);
 
+    // A tensor of rank 0 needs no loop.
+    if (rank == 0) {
+      rewriter.replaceOp(op, inserted);
+      return success();
+    }
+
     // replace lingalg.yield scalarOp with affine.yield insertedOp
     affine::AffineYieldOp::create(rewriter, op->getLoc(), inserted);
     return success();
-- 
2.43.0


From 5f6f8f70ba6bf04c96c9f2a88b0e924b86e548db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 67/90] fix: replace linalg.index when lowering tensor generics
 to affine loops

---
 .../TensorLinalgToAffineLoops.cpp                        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp b/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp
index b5f4fc2..def4b60 100644
--- a/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp
+++ b/lib/Transforms/TensorLinalgToAffineLoops/TensorLinalgToAffineLoops.cpp
@@ -59,11 +59,16 @@ static SmallVector<Value> makeCanonicalAffineApplies(OpBuilder& b, Location loc,
 
 static SmallVector<Value> inlineRegionAndEmitStore(
     OpBuilder& b, Location loc, LinalgOp op, ArrayRef<Value> indexedValues,
-    ArrayRef<SmallVector<Value>> indexing, ValueRange outputBuffers) {
+    ArrayRef<SmallVector<Value>> indexing, ValueRange outputBuffers,
+    ArrayRef<Value> allIvs) {
   auto& block = op->getRegion(0).front();
   IRMapping map;
   map.map(block.getArguments(), indexedValues);
   for (auto& op : block.without_terminator()) {
+    if (auto indexOp = dyn_cast<linalg::IndexOp>(op)) {
+      map.map(indexOp.getResult(), allIvs[indexOp.getDim()]);
+      continue;
+    }
     auto* newOp = b.clone(op, map);
     map.map(op.getResults(), newOp->getResults());
   }
@@ -126,7 +131,7 @@ static SmallVector<Value> emitScalarImplementation(OpBuilder& b, Location loc,
         allIvsPlusDims));
   }
   return inlineRegionAndEmitStore(b, loc, linalgOp, indexedValues, indexing,
-                                  iterArgs);
+                                  iterArgs, allIvs);
 }
 
 static AffineForOp buildAffineLoopFromConstants(
-- 
2.43.0


From a6dad3a03851183e97de7bfae4559912accd3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 68/90] fix: convert tensors of rank 0 and rank 2 and more to
 scalars in row-major order

---
 .../TensorToScalars/TensorToScalars.cpp       | 51 ++++++++-----------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/lib/Transforms/TensorToScalars/TensorToScalars.cpp b/lib/Transforms/TensorToScalars/TensorToScalars.cpp
index 9982ca5..ca56512 100644
--- a/lib/Transforms/TensorToScalars/TensorToScalars.cpp
+++ b/lib/Transforms/TensorToScalars/TensorToScalars.cpp
@@ -37,27 +37,22 @@ namespace heir {
 
 namespace {
 
+// Returns the indices of all elements in row-major order, which is the order
+// of the operands of tensor.from_elements and of the values of a dense
+// constant.
 SmallVector<SmallVector<int64_t>> getAllIndices(TensorType tensorType) {
-  auto getIndices = [&](ArrayRef<int64_t> shape) {
-    SmallVector<SmallVector<int64_t>> oldResult;
-    while (!shape.empty()) {
-      SmallVector<SmallVector<int64_t>> result;
-      for (auto i = 0; i < shape.front(); ++i) {
-        if (oldResult.empty()) {
-          result.push_back({i});
-        }
-        for (const auto& res : oldResult) {
-          SmallVector<int64_t> newResult = res;
-          newResult.push_back(i);
-          result.push_back(newResult);
-        }
+  SmallVector<SmallVector<int64_t>> indices = {{}};
+  for (int64_t dim : tensorType.getShape()) {
+    SmallVector<SmallVector<int64_t>> extended;
+    for (const auto& prefix : indices) {
+      for (int64_t i = 0; i < dim; ++i) {
+        extended.push_back(prefix);
+        extended.back().push_back(i);
       }
-      shape = shape.drop_front();
-      oldResult = result;
     }
-    return oldResult;
-  };
-  return getIndices(tensorType.getShape());
+    indices = std::move(extended);
+  }
+  return indices;
 }
 
 }  // namespace
@@ -77,12 +72,14 @@ static SmallVector<Value> buildExtractOps(OpBuilder& builder,
   RankedTensorType inputType = dyn_cast<RankedTensorType>(input.getType());
   if (!inputType || !inputType.hasStaticShape()) return {};
 
-  // Create extract ops in "natural" order (dimension-by-dimension)
+  // Create extract ops in "natural" (row-major) order
   SmallVector<Value> values;
   ImplicitLocOpBuilder b(loc, builder);
-  const auto* maxDimension = llvm::max_element(inputType.getShape());
+  int64_t maxDimension = 0;
+  for (int64_t dim : inputType.getShape())
+    maxDimension = std::max(maxDimension, dim);
   SmallVector<Value> constVals;
-  for (auto i = 0; i < *maxDimension; ++i) {
+  for (auto i = 0; i < maxDimension; ++i) {
     constVals.push_back(arith::ConstantIndexOp::create(b, i));
   }
   auto rawIndices = getAllIndices(inputType);
@@ -134,8 +131,7 @@ class ConvertInsertOp : public OpConversionPattern<tensor::InsertOp> {
     if (!op.getResult().getType().hasStaticShape())
       return rewriter.notifyMatchFailure(op, "result must have a static shape");
 
-    // Compute the insertion offset (in dimension-by-dimension order):
-    int64_t multiplier = 1;
+    // Compute the insertion offset (in row-major order):
     int64_t offset = 0;
     for (auto [dim, idx] :
          llvm::zip(op.getResult().getType().getShape(), op.getIndices())) {
@@ -144,8 +140,7 @@ class ConvertInsertOp : public OpConversionPattern<tensor::InsertOp> {
       auto cidx = idx.getDefiningOp<arith::ConstantIndexOp>();
       if (!cidx)
         return rewriter.notifyMatchFailure(op, "index must be a constant");
-      offset += cidx.value() * multiplier;
-      multiplier *= dim;
+      offset = offset * dim + cidx.value();
     }
 
     // get converted "tensor" operand from op (likely a unrealized_builtin_cast)
@@ -174,8 +169,7 @@ class ConvertExtractOp : public OpConversionPattern<tensor::ExtractOp> {
     if (!op.getTensor().getType().hasStaticShape())
       return rewriter.notifyMatchFailure(op, "tensor must have a static shape");
 
-    // Compute the extraction offset (in dimension-by-dimension order):
-    int64_t multiplier = 1;
+    // Compute the extraction offset (in row-major order):
     int64_t offset = 0;
     SmallVector<OpFoldResult> indices = getAsOpFoldResult(op.getIndices());
 
@@ -186,8 +180,7 @@ class ConvertExtractOp : public OpConversionPattern<tensor::ExtractOp> {
       auto constantIdx = dyn_cast<Attribute>(idx);
       if (!constantIdx)
         return rewriter.notifyMatchFailure(op, "index must be a constant");
-      offset += cast<IntegerAttr>(constantIdx).getInt() * multiplier;
-      multiplier *= dim;
+      offset = offset * dim + cast<IntegerAttr>(constantIdx).getInt();
     }
 
     // replace the current op with the extracted scalar.
-- 
2.43.0


From 3c4d4f339a30cdcd6927314ac0a1ffca88234aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 69/90] fix: keep every element of tensor.from_elements when
 converting tensors to scalars

---
 lib/Transforms/TensorToScalars/TensorToScalars.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Transforms/TensorToScalars/TensorToScalars.cpp b/lib/Transforms/TensorToScalars/TensorToScalars.cpp
index ca56512..71d4f7e 100644
--- a/lib/Transforms/TensorToScalars/TensorToScalars.cpp
+++ b/lib/Transforms/TensorToScalars/TensorToScalars.cpp
@@ -110,7 +110,10 @@ class ConvertFromElementsOp
     // but no check is necessary here as from_elements' shape is always static
     // Replace the current op with the flattened operands.
     // This should already match the "natural" order expected by this pass.
-    rewriter.replaceOpWithMultiple(op, adaptor.getOperands());
+    SmallVector<Value> elements;
+    for (ValueRange operand : adaptor.getOperands())
+      llvm::append_range(elements, operand);
+    rewriter.replaceOpWithMultiple(op, {elements});
     return success();
   }
 };
-- 
2.43.0


From b338d41bc136a89318125bdb2d50bf289086c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 70/90] fix: keep operand order, outer values and attributes
 when converting linalg.map to an elementwise operation

---
 .../LinalgCanonicalizations.cpp               | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index a5744fe..ccace28 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -445,9 +445,27 @@ struct LinalgMapToElementwise : public OpRewritePattern<mlir::linalg::MapOp> {
       return rewriter.notifyMatchFailure(
           mapOp, "operation in mapper must be elementwise");
 
+    // The mapper must yield the result of the operation, and the operation must
+    // only use elements of the inputs.
+    Operation* yieldOp = mapper->getTerminator();
+    if (op.getNumResults() != 1 || yieldOp->getOperand(0) != op.getResult(0))
+      return rewriter.notifyMatchFailure(
+          mapOp, "mapper must yield the result of its operation");
+    SmallVector<Value> operands;
+    for (Value operand : op.getOperands()) {
+      auto arg = dyn_cast<BlockArgument>(operand);
+      if (!arg || arg.getOwner() != mapper)
+        return rewriter.notifyMatchFailure(
+            mapOp, "operation in mapper must only use the mapper's arguments");
+      operands.push_back(mapOp.getInputs()[arg.getArgNumber()]);
+    }
+
+    NamedAttrList attrs(op.getAttrs());
+    for (NamedAttribute attr : mapOp->getDiscardableAttrs())
+      attrs.set(attr.getName(), attr.getValue());
     auto* elementwiseOp = rewriter.create(
-        mapOp->getLoc(), op.getName().getIdentifier(), mapOp.getInputs(),
-        TypeRange(dest.getType()), mapOp->getAttrs(), {}, {});
+        mapOp->getLoc(), op.getName().getIdentifier(), operands,
+        TypeRange(dest.getType()), attrs, {}, {});
     rewriter.replaceOp(mapOp, elementwiseOp);
     if (dest.use_empty() && dest.getDefiningOp())
       rewriter.eraseOp(dest.getDefiningOp());
-- 
2.43.0


From 4afdd65867abc44b3d08b0df5f0c56ee0eeab4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 71/90] fix: convert only generics whose body is elementwise on
 tensor operands

---
 .../LinalgCanonicalizations.cpp               | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index ccace28..ecad99c 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -497,6 +497,12 @@ struct LinalgGenericToElementwise
       }
     }
 
+    // Elementwise operations on tensors need tensor operands.
+    if (!llvm::all_of(genericOp->getOperandTypes(),
+                      llvm::IsaPred<RankedTensorType>))
+      return rewriter.notifyMatchFailure(genericOp,
+                                         "requires tensor operands");
+
     // Check that the indexing maps are the identity.
     for (auto mapAttr : genericOp.getIndexingMapsArray()) {
       if (!mapAttr.isIdentity()) {
@@ -559,18 +565,11 @@ struct LinalgGenericToElementwise
           cast<RankedTensorType>(genericOp.getResult(0).getType()).getShape();
       for (auto& operand : innerOp.getOpOperands()) {
         Value operandValue = operand.get();
-        if (auto blockArgument = dyn_cast<BlockArgument>(operandValue)) {
-          assert(blockArgument.getArgNumber() < genericOp.getInputs().size() &&
-                 "expecting that the elementwise operation does not use the "
-                 "output's initial values");
-          // Map the block argument to the operand of the generic op.
-          bvm.map(operandValue,
-                  genericOp.getOperand(blockArgument.getArgNumber()));
-        } else if (operandValue.getParentBlock() != genericOp.getBody()) {
-          // If this isn't a block argument and wasn't defined in the generic,
-          // then it must be a constant from outside the generic. The shape of
-          // the splat constant must match the result of this op since
-          // all of the operations are elementwise.
+        if (bvm.contains(operandValue)) continue;
+        if (operandValue.getParentBlock() != genericOp.getBody()) {
+          // If this wasn't defined in the generic, then it must be a scalar
+          // from outside the generic. The shape of the splat must match the
+          // result of this op since all of the operations are elementwise.
           Value splatTensor = tensor::SplatOp::create(
               rewriter, genericOp.getLoc(),
               RankedTensorType::get(resultTensorShape, operandValue.getType()),
@@ -583,6 +582,15 @@ struct LinalgGenericToElementwise
                  "expected a mapping for this value");
         }
       }
+      if (auto constantOp = dyn_cast<arith::ConstantOp>(innerOp)) {
+        auto tensorType =
+            RankedTensorType::get(resultTensorShape, constantOp.getType());
+        Value tensorConstant = arith::ConstantOp::create(
+            rewriter, genericOp.getLoc(), tensorType,
+            DenseElementsAttr::get(tensorType, constantOp.getValue()));
+        bvm.map(constantOp.getResult(), tensorConstant);
+        continue;
+      }
       auto newInputs = llvm::to_vector(llvm::map_range(
           innerOp.getOperands(), [&](Value v) { return bvm.lookup(v); }));
       auto newDestTypes = llvm::to_vector(
-- 
2.43.0


From b85fb1c45a433a097e286a5361cbf35a1441159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 72/90] fix: materialize broadcasts of permuted and scalar
 operands from the loop ranges

---
 .../LinalgCanonicalizations.cpp               | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index ecad99c..b7af10b 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -1096,7 +1096,7 @@ struct MaterializeBroadcasts : public OpRewritePattern<linalg::GenericOp> {
         continue;
       }
 
-      if (map.getNumResults() < numDims) {
+      if (map.getNumResults() < numDims && isBroadcast(map, value.getType())) {
         madeChanges = true;
         auto materializedValue = materializeBroadcastForOperand(
             rewriter, genericOp, value, map, numDims);
@@ -1129,6 +1129,23 @@ struct MaterializeBroadcasts : public OpRewritePattern<linalg::GenericOp> {
   }
 
  private:
+  // Whether an operand of the given type accessed by the given map is, apart
+  // from unit dimensions, the input of a linalg.broadcast: its dimensions must
+  // be distinct loops in increasing order.
+  bool isBroadcast(AffineMap map, Type type) const {
+    auto tensorType = dyn_cast<RankedTensorType>(type);
+    if (!tensorType) return false;
+    int64_t previous = -1;
+    for (auto [expr, size] :
+         llvm::zip_equal(map.getResults(), tensorType.getShape())) {
+      if (isa<AffineConstantExpr>(expr) && size == 1) continue;
+      auto dimExpr = dyn_cast<AffineDimExpr>(expr);
+      if (!dimExpr || dimExpr.getPosition() <= previous) return false;
+      previous = dimExpr.getPosition();
+    }
+    return true;
+  }
+
   LogicalResult tryCollapseUnitDims(PatternRewriter& rewriter, Location loc,
                                     Value& value, AffineMap& map,
                                     int64_t targetRank) const {
@@ -1183,12 +1200,10 @@ struct MaterializeBroadcasts : public OpRewritePattern<linalg::GenericOp> {
       return failure();
     }
 
-    auto refOutput = genericOp.getDpsInitOperand(0)->get();
-    auto refOutputType = cast<RankedTensorType>(refOutput.getType());
     auto inputType = cast<RankedTensorType>(value.getType());
 
     auto emptyOp = tensor::EmptyOp::create(rewriter, genericOp.getLoc(),
-                                           refOutputType.getShape(),
+                                           genericOp.getStaticLoopRanges(),
                                            inputType.getElementType());
 
     auto broadcastOp = linalg::BroadcastOp::create(
-- 
2.43.0


From f134f0004c883d6a30025595a4e0bb97d0429a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 73/90] fix: fold transposes of index constants

---
 .../LinalgCanonicalizations/LinalgCanonicalizations.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index b7af10b..2084688 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -219,6 +219,10 @@ struct FoldConstantLinalgTranspose
                 convertConstantToTransposedElementsAttr<APInt>(
                     denseAttr, outputShape, permutation);
         }
+      } else if (elementType.isIndex()) {
+        transposedDenseElementsAttr =
+            convertConstantToTransposedElementsAttr<APInt>(
+                denseAttr, outputShape, permutation);
       } else {  // floating point
         // Likewise, floating point types are handled with templates to enable
         // better performance.
-- 
2.43.0


From 5cb8714402a8d4f183ce849e75e5f0500d3575f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 74/90] fix: do not fold a fill whose value has another type
 than the tensor

---
 .../LinalgCanonicalizations/LinalgCanonicalizations.cpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index 2084688..8eaf5b3 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -327,6 +327,9 @@ struct FoldConstantFill : public OpRewritePattern<mlir::linalg::FillOp> {
           fillOp, "fillOp with memref semantics not supported");
     }
     auto outputTy = cast<RankedTensorType>(fillOp.getResultTypes()[0]);
+    if (fillOp.getInputs()[0].getType() != outputTy.getElementType())
+      return rewriter.notifyMatchFailure(
+          fillOp, "fill value must have the element type of the output");
     rewriter.replaceOpWithNewOp<arith::ConstantOp>(
         fillOp, outputTy,
         DenseElementsAttr::get(outputTy, cast<Attribute>(value)));
-- 
2.43.0


From d282c12d29741f10a59857d910cfd9c82cc44cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 75/90] fix: distinguish pool / constant from constant / pool

---
 .../LinalgCanonicalizations.cpp                    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index 8eaf5b3..1b9d685 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -730,10 +730,9 @@ struct RewriteAvgPoolAsConv1D
     Value avgPoolOutput;
     if (poolOp->hasOneUse()) {
       auto divOp = dyn_cast<arith::DivFOp>(*poolOp->getUsers().begin());
-      if (divOp) {
-        OpOperand& use = *poolOp->getUses().begin();
-        if (auto constantAttr = dyn_cast<Attribute>(getAsOpFoldResult(
-                divOp->getOperand(1 - use.getOperandNumber())))) {
+      if (divOp && divOp.getLhs() == poolOp.getResult(0)) {
+        if (auto constantAttr =
+                dyn_cast<Attribute>(getAsOpFoldResult(divOp.getRhs()))) {
           if (auto splatAttr = dyn_cast<SplatElementsAttr>(
                   cast<DenseElementsAttr>(constantAttr))) {
             auto divValue = splatAttr.getSplatValue<APFloat>();
@@ -816,10 +815,9 @@ struct RewriteAvgPoolAsConv2D
     Value avgPoolOutput;
     if (poolOp->hasOneUse()) {
       auto divOp = dyn_cast<arith::DivFOp>(*poolOp->getUsers().begin());
-      if (divOp) {
-        OpOperand& use = *poolOp->getUses().begin();
-        if (auto constantAttr = dyn_cast<Attribute>(getAsOpFoldResult(
-                divOp->getOperand(1 - use.getOperandNumber())))) {
+      if (divOp && divOp.getLhs() == poolOp.getResult(0)) {
+        if (auto constantAttr =
+                dyn_cast<Attribute>(getAsOpFoldResult(divOp.getRhs()))) {
           if (auto splatAttr = dyn_cast<SplatElementsAttr>(
                   cast<DenseElementsAttr>(constantAttr))) {
             auto divValue = splatAttr.getSplatValue<APFloat>();
-- 
2.43.0


From d1781a1187570e6ba3242e6cfda478dff1ae12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 76/90] fix: check types, dominance and the scaling operation
 when fusing a convolution with a pool

---
 .../LinalgCanonicalizations/ConvPoolFusion.cpp           | 8 ++++++--
 .../LinalgCanonicalizations/LinalgCanonicalizations.cpp  | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
index 76ff116..4546af0 100644
--- a/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/ConvPoolFusion.cpp
@@ -195,7 +195,10 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
 
   // Case 2: linalg.generic
   if (auto genericOp = dyn_cast<linalg::GenericOp>(user)) {
-    if (genericOp.getNumDpsInputs() == 1 && genericOp.getNumDpsInits() == 1) {
+    if (genericOp.getNumDpsInputs() == 1 && genericOp.getNumDpsInits() == 1 &&
+        genericOp.getNumParallelLoops() == genericOp.getNumLoops() &&
+        llvm::all_of(genericOp.getIndexingMapsArray(),
+                     [](AffineMap map) { return map.isIdentity(); })) {
       Block* body = genericOp.getBody();
       if (body->getOperations().size() == 2) {
         Operation& op = body->getOperations().front();
@@ -203,7 +206,8 @@ FailureOr<ScalingFactorInfo> matchScalingFactor(
           Value arg0 = op.getOperand(0);
           Value arg1 = op.getOperand(1);
           BlockArgument inputArg = body->getArgument(0);
-          if (arg0 == inputArg) {
+          if (arg0 == inputArg &&
+              body->getTerminator()->getOperand(0) == op.getResult(0)) {
             if (auto scaleOpt = getScale(arg1, &op)) {
               return ScalingFactorInfo{*scaleOpt, genericOp};
             }
diff --git a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
index 1b9d685..cd0150e 100644
--- a/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
+++ b/lib/Transforms/LinalgCanonicalizations/LinalgCanonicalizations.cpp
@@ -939,6 +939,9 @@ struct FuseConv2DPooling : public OpRewritePattern<linalg::PoolingNchwSumOp> {
                                          "only batch size 1 is supported");
 
     Type elementType = filterType.getElementType();
+    if (elementType != poolOutputType.getElementType())
+      return rewriter.notifyMatchFailure(
+          poolOp, "conv filter must have the element type of the output");
 
     Conv2DSizeParams conv;
     conv.F = filterType.getDimSize(0);
@@ -981,7 +984,8 @@ struct FuseConv2DPooling : public OpRewritePattern<linalg::PoolingNchwSumOp> {
         Operation* user = *poolOp->getUsers().begin();
         auto scaleInfoOr = matchScalingFactor(user, poolOp.getResult(0),
                                               floatType.getFloatSemantics());
-        if (succeeded(scaleInfoOr)) {
+        if (succeeded(scaleInfoOr) &&
+            user->getBlock() == poolOp->getBlock()) {
           scaleVal = scaleInfoOr->scale;
           divOrMulOp = scaleInfoOr->op;
           foldDivision = true;
@@ -989,6 +993,9 @@ struct FuseConv2DPooling : public OpRewritePattern<linalg::PoolingNchwSumOp> {
       }
     }
 
+    // The scaling may use values defined after the pool.
+    if (foldDivision) rewriter.setInsertionPoint(divOrMulOp);
+
     // Fuse filters
     DenseElementsAttr fusedAttr =
         fuseConv2DPoolingFilters(denseAttr, conv, pool, scaleVal);
-- 
2.43.0


From 2d1887c37089a55aa68a9fab80b8086a1507289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 77/90] fix: keep the order of the output dimensions when
 making reduction dimensions leading

---
 .../ReductionCanonicalizations/ReductionCanonicalizations.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp b/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp
index 241b3d4..61a9980 100644
--- a/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp
+++ b/lib/Transforms/ReductionCanonicalizations/ReductionCanonicalizations.cpp
@@ -139,7 +139,7 @@ struct GenericToReduce : public OpRewritePattern<mlir::linalg::GenericOp> {
     int resultIndex =
         0;  // output map index, i is just the index in the map inputs
     ArrayRef<AffineExpr> results = map.getResults();
-    for (unsigned i = 0, numDims = map.getNumResults(); i < numDims; ++i) {
+    for (unsigned i = 0, numDims = map.getNumDims(); i < numDims; ++i) {
       bool isReduced = find(dimensions, i) != dimensions.end();
       if (isReduced) {  // skip this on the output dimension
         continue;
-- 
2.43.0


From 578f6f8f58355a67720466f01ae9ac2687d09713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 78/90] fix: do not fuse scales into operations that do not
 accumulate by addition

---
 .../LinalgFuseLinearOps.cpp                   | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
index 9cfbab3..6cd5296 100644
--- a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
+++ b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
@@ -57,34 +57,30 @@ bool accumulatesIntoOuts(Operation* linearOp) {
           linalg::DepthwiseConv3DNcdhwCdhwOp,
           linalg::DepthwiseConv3DNdhwcDhwcOp,
           linalg::DepthwiseConv3DNdhwcDhwcmOp, linalg::DotOp, linalg::MatmulOp,
-          linalg::MatvecOp, linalg::Mmt4DOp, linalg::PoolingNchwMaxOp,
-          linalg::PoolingNchwSumOp, linalg::PoolingNcwMaxOp,
-          linalg::PoolingNcwSumOp, linalg::PoolingNdhwcMaxOp,
-          linalg::PoolingNdhwcMinOp, linalg::PoolingNdhwcSumOp,
-          linalg::PoolingNhwcMaxOp, linalg::PoolingNhwcMaxUnsignedOp,
-          linalg::PoolingNhwcMinOp, linalg::PoolingNhwcMinUnsignedOp,
-          linalg::PoolingNhwcSumOp, linalg::PoolingNwcMaxOp,
-          linalg::PoolingNwcMaxUnsignedOp, linalg::PoolingNwcMinOp,
-          linalg::PoolingNwcMinUnsignedOp, linalg::PoolingNwcSumOp,
+          linalg::MatvecOp, linalg::Mmt4DOp, linalg::PoolingNchwSumOp,
+          linalg::PoolingNcwSumOp, linalg::PoolingNdhwcSumOp,
+          linalg::PoolingNhwcSumOp, linalg::PoolingNwcSumOp,
           linalg::QuantizedBatchMatmulOp, linalg::QuantizedMatmulOp,
-          linalg::ReduceOp, linalg::VecmatOp>(linearOp)) {
+          linalg::VecmatOp>(linearOp)) {
     return true;
   }
 
-  // Check if a generic op uses addi or addf on the outs's corresponding block
-  // argument just before yielding it.
-  if (auto generic = dyn_cast<linalg::GenericOp>(linearOp)) {
-    if (generic.getNumDpsInits() != 1) return false;
-    Block* body = generic.getBody();
-    auto yieldOp = cast<linalg::YieldOp>(body->getTerminator());
-    Value yieldedValue = yieldOp.getOperand(0);
+  // Check if a generic or reduce op uses addi or addf on the outs's
+  // corresponding block argument just before yielding it, and doesn't use that
+  // block argument otherwise.
+  if (isa<linalg::GenericOp, linalg::ReduceOp>(linearOp)) {
+    auto structuredOp = cast<linalg::LinalgOp>(linearOp);
+    if (structuredOp.getNumDpsInits() != 1) return false;
+    Block* body = structuredOp.getBlock();
+    Value yieldedValue = body->getTerminator()->getOperand(0);
     auto addOp = yieldedValue.getDefiningOp();
     if (!addOp) return false;
     if (isa<arith::AddFOp, arith::AddIOp>(addOp)) {
       Value lhs = addOp->getOperand(0);
       Value rhs = addOp->getOperand(1);
-      Value outBlockArg = body->getArgument(generic.getNumDpsInputs());
-      if (lhs == outBlockArg || rhs == outBlockArg) {
+      Value outBlockArg = body->getArgument(structuredOp.getNumDpsInputs());
+      if (outBlockArg.hasOneUse() &&
+          (lhs == outBlockArg || rhs == outBlockArg)) {
         return true;
       }
     }
-- 
2.43.0


From 526d9bb5f82826bb74fd2825dd0b3e648d35a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 79/90] fix: fuse only linear operations used once, in the same
 block, and not as divisors or subtrahends

---
 .../LinalgFuseLinearOps/LinalgFuseLinearOps.cpp        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
index 6cd5296..8e01cf8 100644
--- a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
+++ b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
@@ -99,8 +99,11 @@ LogicalResult findLinearOpAndOperand(OpTy op, Operation*& linearOp,
   Value lhs = op.getLhs();
   Value rhs = op.getRhs();
 
-  auto isLinearOp = [](Operation* defOp) {
-    return defOp && isa<linalg::LinalgOp>(defOp) &&
+  // The linear op is modified in place, so `op` must be its only user and must
+  // be executed exactly when the linear op is.
+  auto isLinearOp = [&](Operation* defOp) {
+    return defOp && isa<linalg::LinalgOp>(defOp) && defOp->hasOneUse() &&
+           defOp->getBlock() == op->getBlock() &&
            !isa<linalg::BroadcastOp, linalg::FillOp, linalg::TransposeOp>(
                defOp);
   };
@@ -113,7 +116,8 @@ LogicalResult findLinearOpAndOperand(OpTy op, Operation*& linearOp,
     rawOperand = rhs;
     return success();
   }
-  if (isLinearOp(rhsOp)) {
+  // The linear op can't be the subtrahend or the divisor.
+  if (op->template hasTrait<OpTrait::IsCommutative>() && isLinearOp(rhsOp)) {
     linearOp = rhsOp;
     rawOperand = lhs;
     return success();
-- 
2.43.0


From 8332ed274c913bad3a4b294363b614a9ff7649ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 80/90] fix: move values captured by regions along with the
 scale

---
 .../LinalgFuseLinearOps/LinalgFuseLinearOps.cpp    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
index 8e01cf8..5849274 100644
--- a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
+++ b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
@@ -129,17 +129,19 @@ static void moveSliceBefore(Operation* op, Operation* target) {
   if (!op) return;
   if (op->getBlock() != target->getBlock() || op->isBeforeInBlock(target))
     return;
-  for (Value operand : op->getOperands()) {
-    moveSliceBefore(operand.getDefiningOp(), target);
-  }
+  op->walk([&](Operation* nestedOp) {
+    for (Value operand : nestedOp->getOperands()) {
+      moveSliceBefore(operand.getDefiningOp(), target);
+    }
+  });
   op->moveBefore(target);
 }
 
 // Given a value, walk the use-def chain backwards to try to find a scalar SSA
 // value, passing through ops that only splat/reshape a scalar as a dense
-// tensor. Alternatively, if the end of the chain is a tensor type, check
-// to see if it can be broadcast to a given weightsType.
-FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, Type weightsType) {
+// tensor. Alternatively, if the end of the chain is a 1D tensor, check that it
+// is laid out along dimension `dim` of the given value.
+FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, int64_t dim) {
   Value val = scaleVal;
   Operation* definingOp = nullptr;
   while (val.getDefiningOp() && isa<ShapedType>(val.getType())) {
-- 
2.43.0


From 9aa449e4f425485236023e6607c19893670bb40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 81/90] fix: fuse only scales that vary along the output
 channels

---
 .../LinalgFuseLinearOps.cpp                   | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
index 5849274..6170e27 100644
--- a/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
+++ b/lib/Transforms/LinalgFuseLinearOps/LinalgFuseLinearOps.cpp
@@ -154,6 +154,25 @@ FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, int64_t dim) {
              arith::ConstantOp>(*definingOp))
       return failure();
 
+    // Follow the dimension; -1 means that the value doesn't vary along it.
+    if (auto broadcastOp = dyn_cast<linalg::BroadcastOp>(definingOp)) {
+      ArrayRef<int64_t> added = broadcastOp.getDimensions();
+      dim = llvm::is_contained(added, dim)
+                ? -1
+                : dim - llvm::count_if(added,
+                                       [&](int64_t d) { return d < dim; });
+    } else if (auto expandOp = dyn_cast<tensor::ExpandShapeOp>(definingOp)) {
+      if (dim >= 0) {
+        int64_t size = expandOp.getResultType().getDimSize(dim);
+        for (auto [idx, group] :
+             llvm::enumerate(expandOp.getReassociationIndices())) {
+          if (!llvm::is_contained(group, dim)) continue;
+          dim = expandOp.getSrcType().getDimSize(idx) == size ? idx : -1;
+          break;
+        }
+      }
+    }
+
     // For the supported ops, the input to traverse is always the first operand,
     // or else a constant op (with no operands) at which point we break.
     if (definingOp->getNumOperands() == 0) break;
@@ -180,7 +199,7 @@ FailureOr<OpFoldResult> findOriginalScalar(Value scaleVal, int64_t dim) {
   // Case 3: we stopped at an SSA value that is a 1D tensor. This is checked
   // for broadcast compatibility by the caller.
   if (auto shapedTy = dyn_cast<ShapedType>(val.getType())) {
-    if (shapedTy.getRank() == 1) return OpFoldResult(val);
+    if (shapedTy.getRank() == 1 && dim == 0) return OpFoldResult(val);
   }
 
   return failure();
@@ -207,6 +226,8 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
   Value weights;
   int64_t weightOperandIdx = -1;
   int64_t matchDim = -1;
+  // The dimension of the output that corresponds to matchDim of the weights.
+  int64_t outputDim = -1;
 
   // Opt-in only specific ops where the `addend` can be fused into the
   // corresponding cleartext weights matrix.
@@ -215,27 +236,32 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 1;
+        outputDim = isa<linalg::MatmulOp>(linearOp) ? 1 : 0;
       })
       .template Case<linalg::MatvecOp>([&](auto op) {
         weights = op.getOperand(0);
         weightOperandIdx = 0;
         matchDim = 0;
+        outputDim = 0;
       })
       .template Case<linalg::Conv2DNchwFchwOp, linalg::Conv2DNhwcFhwcOp,
                      linalg::Conv1DNcwFcwOp>([&](auto op) {
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 0;
+        outputDim = isa<linalg::Conv2DNhwcFhwcOp>(linearOp) ? 3 : 1;
       })
       .template Case<linalg::Conv2DNhwcHwcfOp>([&](auto op) {
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 3;
+        outputDim = 3;
       })
       .template Case<linalg::Conv1DNwcWcfOp>([&](auto op) {
         weights = op.getOperand(1);
         weightOperandIdx = 1;
         matchDim = 2;
+        outputDim = 2;
       })
       .Default([](auto) {});
 
@@ -250,7 +276,7 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
   // division. So the `scaleVal` may need to be traced back through broadcasts
   // until a dense constant or scalar SSA value is identified.
   FailureOr<OpFoldResult> maybeScaleOfr =
-      findOriginalScalar(scaleVal, weightsType);
+      findOriginalScalar(scaleVal, outputDim);
   if (failed(maybeScaleOfr)) return failure();
   OpFoldResult scaleOfr = *maybeScaleOfr;
 
@@ -272,8 +298,11 @@ LogicalResult fuseScaleOrDivIntoLinearOp(PatternRewriter& rewriter, OpTy op,
     newScaleVal = newConstantOp.getResult();
   } else {
     Value origVal = cast<Value>(scaleOfr);
-    auto origType = cast<ShapedType>(origVal.getType());
-    if (origType == weightsType) {
+    auto origType = dyn_cast<ShapedType>(origVal.getType());
+    if (!origType) {
+      newScaleVal = tensor::SplatOp::create(rewriter, linearOp->getLoc(),
+                                            weightsType, origVal);
+    } else if (origType == weightsType) {
       newScaleVal = origVal;
     } else if (origType.getRank() == 1) {
       // The added type is not broadcast compatible with the weights tensor.
-- 
2.43.0


From a00083e07b7b5f5d2d9fdf7010465f663e8f6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 82/90] fix: do not give the shift of a rotation a scale

---
 lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp b/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
index 1b4c548..3d0f198 100644
--- a/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
+++ b/lib/Analysis/ScaleAnalysis/ScaleAnalysis.cpp
@@ -543,10 +543,15 @@ LogicalResult ScaleAnalysisBackward<ScaleModelT>::visitOperation(
           return;
         }
 
-        // propagate the scale to all operands
-        // including plaintext (non-secret)
-        for (auto operand : op.getOperands()) {
-          propagate(operand, ScaleState<ScaleModelT>(scales[0]));
+        // propagate the scale to all operands that are encrypted or encoded,
+        // but not to the others, e.g. the shift of a rotation, which may be
+        // shared by rotations at different scales.
+        SmallVector<OpOperand*> secretOperands;
+        if (failed(getSecretOrInittedOperands(&op, secretOperands))) {
+          return;
+        }
+        for (auto* operand : secretOperands) {
+          propagate(operand->get(), ScaleState<ScaleModelT>(scales[0]));
         }
       });
   return success();
-- 
2.43.0


From 72e2fc4482c4b2c3227a87785cb6f414ac98afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 83/90] fix: do not reuse a ciphertext put into a tensor as
 storage

---
 lib/Utils/AllocToInPlaceUtils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/AllocToInPlaceUtils.h b/lib/Utils/AllocToInPlaceUtils.h
index 99e1cac..b7fc0c1 100644
--- a/lib/Utils/AllocToInPlaceUtils.h
+++ b/lib/Utils/AllocToInPlaceUtils.h
@@ -85,6 +85,8 @@ static bool isStored(Value value) {
       if (use.getOperandNumber() == 0) {
         return true;
       }
+    } else if (isa<tensor::FromElementsOp>(owner)) {
+      return true;
     } else if (isa<scf::YieldOp>(owner) || isa<func::ReturnOp>(owner)) {
       return true;
     }
-- 
2.43.0


From 5b4fd5ba0a5223b1963221214dd8611c0d7c899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 84/90] fix: mutate an OpenFHE ciphertext in place only if
 nothing else refers to it

---
 lib/Utils/AllocToInPlaceUtils.h | 80 ++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/AllocToInPlaceUtils.h b/lib/Utils/AllocToInPlaceUtils.h
index b7fc0c1..0a7af29 100644
--- a/lib/Utils/AllocToInPlaceUtils.h
+++ b/lib/Utils/AllocToInPlaceUtils.h
@@ -17,7 +17,9 @@
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"        // from @llvm-project
 #include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"  // from @llvm-project
+#include "mlir/include/mlir/IR/BuiltinOps.h"             // from @llvm-project
 #include "mlir/include/mlir/IR/Dominance.h"              // from @llvm-project
+#include "mlir/include/mlir/IR/SymbolTable.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/Visitors.h"               // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 
@@ -358,10 +360,86 @@ class OperandMutatedStorageInfo {
     Value storage = getStorageFromValue(operand);
     bool mutatedValueIsDead = liveness->isDeadAfter(operand, op);
     bool storageIsDead = liveness->isDeadAfter(storage, op);
-    return mutatedValueIsDead && storageIsDead;
+    return mutatedValueIsDead && storageIsDead &&
+           isSoleReference(operand, op->getBlock());
   }
 
  private:
+  // Returns true if the use makes something else refer to the same storage:
+  // an element of a container, the result of a region, or a callee's argument.
+  static bool retainsReference(OpOperand& use) {
+    Operation* owner = use.getOwner();
+    if (owner->getDialect() == &use.get().getType().getDialect()) return false;
+    if (owner->hasTrait<OpTrait::IsTerminator>()) {
+      return owner->getBlock() != use.get().getParentBlock();
+    }
+    // The initial values of a loop are copied.
+    if (isa<LoopLikeOpInterface>(owner) && !isa<scf::WhileOp>(owner)) {
+      return false;
+    }
+    if (auto callOp = dyn_cast<func::CallOp>(owner)) {
+      return !callOp.getCallee().starts_with("__heir_debug");
+    }
+    return true;
+  }
+
+  // Follows in-place ops back to the value whose storage they mutate, and
+  // returns a null value if anything else holds on to that storage.
+  Value getUnsharedStorage(Value value) const {
+    while (true) {
+      if (llvm::any_of(value.getUses(), retainsReference)) return Value();
+      auto inPlaceOp = value.getDefiningOp<InPlaceOpInterface>();
+      if (!inPlaceOp) return value;
+      value = inPlaceOp->getOperand(inPlaceOp.getInPlaceOperandIndex());
+    }
+  }
+
+  // Returns true if the storage of the value can be reached in no other way
+  // than through the chain of in-place ops that leads to it within the block.
+  bool isSoleReference(Value value, Block* block) {
+    Value storage = getUnsharedStorage(value);
+    // A region may run many times, and find the values from outside changed.
+    if (!storage || storage.getParentBlock() != block) return false;
+    auto arg = dyn_cast<BlockArgument>(storage);
+    if (!arg) return isAllocated(storage);
+
+    Operation* parent = block->getParentOp();
+    if (auto funcOp = dyn_cast<func::FuncOp>(parent)) return !isCalled(funcOp);
+    auto loop = dyn_cast<LoopLikeOpInterface>(parent);
+    if (!loop) return false;
+    // The next iteration's argument is what this iteration yields.
+    OpOperand* yielded = loop.getTiedLoopYieldedValue(arg);
+    if (!yielded) return false;
+    Value next = yielded->get();
+    if (llvm::count_if(next.getUses(), [&](OpOperand& use) {
+          return use.getOwner() == yielded->getOwner();
+        }) != 1) {
+      return false;
+    }
+    Value nextStorage = getUnsharedStorage(next);
+    return nextStorage == storage ||
+           (nextStorage && nextStorage.getParentBlock() == block &&
+            isAllocated(nextStorage));
+  }
+
+  // Returns true if the value is newly allocated by an op of its own dialect.
+  static bool isAllocated(Value value) {
+    Operation* op = value.getDefiningOp();
+    return op && op->getDialect() == &value.getType().getDialect();
+  }
+
+  bool isCalled(func::FuncOp funcOp) {
+    auto [it, inserted] = calledFuncs.try_emplace(funcOp, false);
+    if (inserted) {
+      auto module = funcOp->getParentOfType<ModuleOp>();
+      it->second = module && !SymbolTable::symbolKnownUseEmpty(funcOp, module);
+    }
+    return it->second;
+  }
+
+  // Whether a function is called from within the module.
+  DenseMap<Operation*, bool> calledFuncs;
+
   // Map from an SSA value to the canonical storage value.
   DenseMap<Value, Value> valueToStorage;
 
-- 
2.43.0


From f065ee4136651399cd347dba167030bd11bd8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 85/90] fix: index a plaintext truth table by its first input
 as the most significant bit

---
 .../Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp b/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
index e57aae2..5efc238 100644
--- a/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
+++ b/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
@@ -74,14 +74,15 @@ Value buildSelectTruthTable(Location loc, OpBuilder& b, Value t, Value f,
   }
 
   int halfSize = tableSize / 2;
-  auto firstHalf = lut.extractBits(halfSize, 0);
-  auto lastHalf = lut.extractBits(halfSize, halfSize);
+  auto lowHalf = lut.extractBits(halfSize, 0);
+  auto highHalf = lut.extractBits(halfSize, halfSize);
 
+  // The first input is the most significant bit of the index into the table.
   Value selectTrue =
-      buildSelectTruthTable(loc, b, t, f, firstHalf, lutInputs.drop_back());
+      buildSelectTruthTable(loc, b, t, f, highHalf, lutInputs.drop_front());
   Value selectFalse =
-      buildSelectTruthTable(loc, b, t, f, lastHalf, lutInputs.drop_back());
-  return arith::SelectOp::create(b, loc, lutInputs.back(), selectTrue,
+      buildSelectTruthTable(loc, b, t, f, lowHalf, lutInputs.drop_front());
+  return arith::SelectOp::create(b, loc, lutInputs.front(), selectTrue,
                                  selectFalse);
 }
 
-- 
2.43.0


From ca79c1d32ed71bb29f97aeea8cd1273451aca314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 86/90] fix: read each element of a concealed tensor from its
 own position

---
 lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp b/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
index 5efc238..d213a58 100644
--- a/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
+++ b/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
@@ -33,6 +33,7 @@
 #include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/IndexingUtils.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Utils/ReshapeOpsUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Attributes.h"             // from @llvm-project
@@ -625,9 +626,11 @@ struct ConvertSecretConcealOp
         for (auto i = 0; i < *maxDimension; ++i) {
           constIndices.push_back(arith::ConstantIndexOp::create(b, i));
         }
+        SmallVector<int64_t> strides =
+            computeStrides(inputTensorTy.getShape());
         for (auto i = 0; i < inputTensorTy.getNumElements(); ++i) {
           // Extract the value from the original tensor.
-          auto rawIndices = unflattenIndex(i, inputTensorTy.getShape(), 0);
+          auto rawIndices = unflattenIndex(i, strides, 0);
           auto indices = llvm::map_to_vector(
               rawIndices,
               [&](int64_t index) -> Value { return constIndices[index]; });
-- 
2.43.0


From 1a6bbca26963b5a4b63f6e45734585ba652d4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 87/90] fix: keep every bit of a plaintext inserted into a
 tensor of ciphertexts

---
 .../Conversions/SecretToCGGI/SecretToCGGI.cpp | 37 +++++++++----------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp b/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
index d213a58..e5b7787 100644
--- a/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
+++ b/lib/Dialect/Secret/Conversions/SecretToCGGI/SecretToCGGI.cpp
@@ -117,26 +117,25 @@ Operation* convertWriteOpInterface(
           return tensor::InsertOp::create(b, ctValue, toTensor, indices);
         }
 
-        // Get i-th bit of input and insert the bit into the tensor of
-        // ciphertexts.
-        auto loop = mlir::affine::AffineForOp::create(b, 0, valType.getWidth());
-        b.setInsertionPointToStart(loop.getBody());
-        auto idx = loop.getInductionVar();
-
-        auto one = arith::ConstantOp::create(
-            b, valType, rewriter.getIntegerAttr(valType, 1));
-        auto shiftAmount = arith::IndexCastOp::create(b, valType, idx);
-        auto bitMask = arith::ShLIOp::create(b, valType, one, shiftAmount);
-        auto andOp = arith::AndIOp::create(b, valueToStore, bitMask);
-        auto shifted = arith::ShRSIOp::create(b, andOp, shiftAmount);
-        auto bitValue = arith::TruncIOp::create(b, b.getI1Type(), shifted);
-        auto ctValue = lwe::TrivialEncryptOp::create(
-            b, ctTy,
-            lwe::EncodeOp::create(b, op->getLoc(), ptxtTy, bitValue,
-                                  b.getIndexAttr(plaintextBits)));
+        // Insert each bit of the input into the tensor of ciphertexts.
+        tensor::InsertOp insertOp;
+        Value result = toTensor;
+        for (unsigned i = 0; i < valType.getWidth(); ++i) {
+          auto shiftAmount = arith::ConstantOp::create(
+              b, valType, rewriter.getIntegerAttr(valType, i));
+          auto shifted = arith::ShRUIOp::create(b, valueToStore, shiftAmount);
+          auto bitValue = arith::TruncIOp::create(b, b.getI1Type(), shifted);
+          auto ctValue = lwe::TrivialEncryptOp::create(
+              b, ctTy,
+              lwe::EncodeOp::create(b, op->getLoc(), ptxtTy, bitValue,
+                                    b.getIndexAttr(plaintextBits)));
 
-        indices.push_back(idx);
-        return tensor::InsertOp::create(b, ctValue, toTensor, indices);
+          SmallVector<Value> bitIndices(indices);
+          bitIndices.push_back(arith::ConstantIndexOp::create(b, i));
+          insertOp = tensor::InsertOp::create(b, ctValue, result, bitIndices);
+          result = insertOp.getResult();
+        }
+        return insertOp;
       })
       .Case<lwe::LWECiphertextType>([&](auto valType) {
         return tensor::InsertOp::create(b, valueToStore, toTensor, indices);
-- 
2.43.0


From a225c60d650fecab43f553167eb026436299009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 88/90] fix: pass the operands of packed lut3 operations in
 their order

---
 lib/Dialect/CGGI/IR/CGGIOps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/CGGI/IR/CGGIOps.cpp b/lib/Dialect/CGGI/IR/CGGIOps.cpp
index dff8d1b..f551797 100644
--- a/lib/Dialect/CGGI/IR/CGGIOps.cpp
+++ b/lib/Dialect/CGGI/IR/CGGIOps.cpp
@@ -307,9 +307,10 @@ FailureOr<Operation*> Lut3Op::buildBatchedOperation(
   Type elementType = this->getType();
   RankedTensorType resultTensorType = RankedTensorType::get(
       {static_cast<int64_t>(batchedOperations.size())}, elementType);
+  // The operands of lut3 are (c, b, a), those of packed_lut3 are (a, b, c).
   Operation* packedLut = cggi::PackedLut3Op::create(
       builder, this->getLoc(), resultTensorType, builder.getArrayAttr(lutAttrs),
-      vectorizedOperands[0], vectorizedOperands[1], vectorizedOperands[2]);
+      vectorizedOperands[2], vectorizedOperands[1], vectorizedOperands[0]);
   return packedLut;
 }
 
-- 
2.43.0


From 4b4439ecceb44af32c3b795e9ead73349e5064b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 89/90] fix: pack only operations whose operands and results
 have one scalar type

---
 .../StraightLineVectorizer.cpp                       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
index b035bea..5bb47b4 100644
--- a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
+++ b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
@@ -34,6 +34,18 @@ bool areCompatible(Operation* lhs, Operation* rhs) {
       lhs->getAttrs() != rhs->getAttrs()) {
     return false;
   }
+  // Operands and results are packed into tensors of one element type.
+  if (lhs->getNumResults() != 1 ||
+      lhs->getNumOperands() != rhs->getNumOperands()) {
+    return false;
+  }
+  Type type = lhs->getResultTypes()[0];
+  if (isa<ShapedType>(type)) return false;
+  auto isPackable = [&](Type operandType) { return operandType == type; };
+  if (!llvm::all_of(lhs->getOperandTypes(), isPackable) ||
+      !llvm::all_of(rhs->getOperandTypes(), isPackable)) {
+    return false;
+  }
   return OpTrait::hasElementwiseMappableTraits(lhs);
 }
 
-- 
2.43.0


From a9b288132fe05e7c2a22981b6235b1efa93c322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 90/90] fix: order packed operations after what regions capture

---
 lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp          | 2 ++
 .../StraightLineVectorizer/StraightLineVectorizer.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp b/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp
index ffd7fe3..dab448a 100644
--- a/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp
+++ b/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp
@@ -130,6 +130,8 @@ bool tryBoolVectorizeBlock(Block* block, MLIRContext& context,
     SetVector<Operation*> backwardSlice;
     BackwardSliceOptions options;
     options.omitBlockArguments = true;
+    // An operation with regions depends on the values its regions capture.
+    options.omitUsesFromAbove = false;
 
     (void)mlir::getBackwardSlice(&op, &backwardSlice, options);
     for (auto* upstreamDep : backwardSlice) {
diff --git a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
index 5bb47b4..ec8eaa8 100644
--- a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
+++ b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
@@ -64,6 +64,8 @@ bool tryVectorizeBlock(Block* block, Dialect* dialect) {
     SetVector<Operation*> backwardSlice;
     BackwardSliceOptions options;
     options.omitBlockArguments = true;
+    // An operation with regions depends on the values its regions capture.
+    options.omitUsesFromAbove = false;
 
     (void)mlir::getBackwardSlice(&op, &backwardSlice, options);
     for (auto* upstreamDep : backwardSlice) {
-- 
2.43.0

