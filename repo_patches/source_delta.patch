From fec86333c0140783825da3d673350264a9d02cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 01/38] fix: a range differs from a point when either bound
 differs

---
 lib/Modeling/Range.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/Range.cpp b/lib/Modeling/Range.cpp
index 0eb8da9..527920d 100644
--- a/lib/Modeling/Range.cpp
+++ b/lib/Modeling/Range.cpp
@@ -20,7 +20,7 @@ bool Range::operator==(const Range &other) const {
 }
 
 bool Range::operator!=(Range::data_type other) const {
-  return getBegin() != other && getEnd() != other + 1;
+  return getBegin() != other || getEnd() != other + 1;
 }
 
 bool Range::operator!=(const Range &other) const {
-- 
2.43.0


From 393040f8e4d61c4bcc222e9ce2279a40c71a1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 02/38] fix: reals without fractional digits do not swallow the
 next character

A real literal ending with the dot, or with an 'e' which is not followed by an
exponent, consumed the character after it: '1.;' lost the semicolon and '1.+2'
was read as 1.2.
---
 lib/Parser/BaseModelica/StateMachine.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..4e31fd7 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,6 +187,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
+    if (!isDigit(next) && next != 'e' && next != 'E') {
+      // The fractional part is empty and there is no exponent.
+      state = State::Normal;
+      return makeToken(TokenKind::FloatingPoint, getFloat());
+    }
+
     state = State::ParsingFloat;
     return std::nullopt;
   }
@@ -242,6 +248,11 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    setTokenEndPosition();
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
-- 
2.43.0


From 5d8ef0e496d5c9d5b87f6bb3962240d0a1d5c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 03/38] fix: comments are closed only by a complete terminator

'/*/' was taken as a whole comment, and a comment missing its terminator was
silently skipped up to the end of the file.
---
 .../marco/Parser/BaseModelica/StateMachine.h  |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp      | 22 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..f9a1a03 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentBegin,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 4e31fd7..ce38c87 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -358,13 +358,24 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
 
 template <>
 std::optional<Token>
-StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
+  // The asterisk opening the comment can't be also the one closing it.
   setTokenEndPosition();
+  state = State::ParsingMultiLineComment;
+  return std::nullopt;
+}
 
-  if (next == '\0') {
-    state = State::Normal;
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
+  if (current == '\0') {
+    state = State::End;
+    error = "unexpected end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
   }
 
+  setTokenEndPosition();
+
   if (current == '*' && next == '/') {
     state = State::IgnoredCharacter;
   }
@@ -529,7 +540,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentBegin;
     return std::nullopt;
   }
 
@@ -674,6 +685,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentBegin:
+    return scan<State::ParsingMultiLineCommentBegin>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From 2053133bd91e2fbb20377cea06a5cf7ef2fc6d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:03 +0000
Subject: [PATCH 04/38] fix: literals with many digits do not overflow the
 accumulators

A fractional part with 19 digits made FloatLexer::get loop forever, and longer
ones (such as 3.14159265358979323846) gave a wrong value.
---
 include/marco/Lexer/FloatLexer.h   |  6 ++++++
 include/marco/Lexer/IntegerLexer.h | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..7036f82 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -15,6 +15,12 @@ public:
 
   /// Concatenate the number to the rational part.
   void addLower(int i) {
+    // Both the rational part and its normalizer have to be representable. The
+    // digits in excess are beyond the precision of the result.
+    if (lowerPart.get() >= std::numeric_limits<int64_t>::max() / Base / Base) {
+      return;
+    }
+
     lowerPart += i;
 
     if (i != 0) {
diff --git a/include/marco/Lexer/IntegerLexer.h b/include/marco/Lexer/IntegerLexer.h
index 6b5c75d..52f8836 100644
--- a/include/marco/Lexer/IntegerLexer.h
+++ b/include/marco/Lexer/IntegerLexer.h
@@ -2,6 +2,7 @@
 #define MARCO_LEXER_INTEGERLEXER_H
 
 #include <cstdint>
+#include <limits>
 
 namespace marco::lexer {
 /// An integer lexer is a object that can be feed with
@@ -15,8 +16,16 @@ public:
   /// Creates a new IntegerLexer loaded with the provided int.
   IntegerLexer(int64_t value = 0) : value(value) {}
 
-  /// Adds the next element to the integer.
+  /// Adds the next element to the integer. The value saturates if it exceeds
+  /// the representable range.
   IntegerLexer operator+=(int i) {
+    constexpr int64_t max = std::numeric_limits<int64_t>::max();
+
+    if (value > (max - i) / Base) {
+      value = max;
+      return *this;
+    }
+
     value = value * Base;
     value = value + i;
     return *this;
-- 
2.43.0


From d8d2726279329d88fb862cfaad3ee811a324b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 05/38] fix: array bounds of variable filters are not truncated
 to int

---
 include/marco/VariableFilter/Parser.h | 2 +-
 lib/VariableFilter/Parser.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/marco/VariableFilter/Parser.h b/include/marco/VariableFilter/Parser.h
index 6a07d2d..f540916 100644
--- a/include/marco/VariableFilter/Parser.h
+++ b/include/marco/VariableFilter/Parser.h
@@ -27,7 +27,7 @@ public:
 
   std::optional<Range> parseArrayRange();
 
-  std::optional<int> parseArrayIndex();
+  std::optional<int64_t> parseArrayIndex();
 
   std::optional<DerivativeExpression> parseDer();
 
diff --git a/lib/VariableFilter/Parser.cpp b/lib/VariableFilter/Parser.cpp
index e047c78..498b6cb 100644
--- a/lib/VariableFilter/Parser.cpp
+++ b/lib/VariableFilter/Parser.cpp
@@ -202,7 +202,7 @@ std::optional<Range> Parser::parseArrayRange() {
   return Range(*lowerBound, *upperBound);
 }
 
-std::optional<int> Parser::parseArrayIndex() {
+std::optional<int64_t> Parser::parseArrayIndex() {
   if (accept<TokenKind::Dollar>()) {
     return Range::kUnbounded;
   }
-- 
2.43.0


From 8029ab631ad6e4f188a25fc4f1534ca6f6ad723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 06/38] fix: index sets built from overlapping ranges store
 disjoint ranges

---
 lib/Modeling/IndexSet.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..a3974d8 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -157,20 +157,12 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
       continue;
     }
 
-    size_t possibleOverlapIndex = nonOverlappingRanges.size();
-
-    while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
-      --possibleOverlapIndex;
-    }
-
     llvm::SmallVector<MultidimensionalRange> differences;
     differences.push_back(current);
 
-    for (size_t i = possibleOverlapIndex, e = nonOverlappingRanges.size();
-         i < e; ++i) {
-      const MultidimensionalRange &other = nonOverlappingRanges[i];
+    // The order among the ranges is not sufficient to bound the search, as any
+    // of the previous ranges may be wide enough to overlap the current one.
+    for (const MultidimensionalRange &other : nonOverlappingRanges) {
       llvm::SmallVector<MultidimensionalRange> newDifferences;
 
       for (MultidimensionalRange &currentDifference : differences) {
@@ -185,12 +177,10 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
     }
 
     llvm::append_range(nonOverlappingRanges, std::move(differences));
-
-    llvm::sort(
-        std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
-        std::end(nonOverlappingRanges));
   }
 
+  llvm::sort(nonOverlappingRanges);
+
   assert(llvm::none_of(nonOverlappingRanges,
                        [&](const MultidimensionalRange &range) {
                          for (const MultidimensionalRange &other :
-- 
2.43.0


From 40d4ba3e6eae0dab9f49a5ab0d4bcc0b82e85a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 07/38] fix: an index set can be removed from itself

---
 include/marco/Modeling/RTree.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..3219dbe 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -668,7 +668,7 @@ public:
 
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
-    llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
+    llvm::SmallVector<T> overlappingObjects;
 
     const Node *lhsRoot = getRoot();
     const Node *rhsRoot = other.getRoot();
@@ -689,7 +689,8 @@ public:
           for (const Object &lhsObject : lhs->objects) {
             for (const Object &rhsObject : rhs->objects) {
               if (lhsObject.getBoundary().overlaps(rhsObject.getBoundary())) {
-                overlappingObjects.emplace_back(rhsObject);
+                // Copy the object, as the other tree may be this one.
+                overlappingObjects.push_back(*rhsObject);
               }
             }
           }
@@ -709,8 +710,8 @@ public:
       }
     }
 
-    for (const Object &overlappingObject : overlappingObjects) {
-      remove(*overlappingObject);
+    for (const T &overlappingObject : overlappingObjects) {
+      remove(overlappingObject);
     }
 
     assert(isValid());
-- 
2.43.0


From d4ec60de8558a564cd3fcd48632215d9e1217728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 08/38] fix: removals visit every leaf that overlaps the
 removed range

---
 include/marco/Modeling/RTree.h | 57 ++++++++++++++++++++++------------
 lib/Modeling/IndexSet.cpp      | 20 +++++-------
 2 files changed, 45 insertions(+), 32 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 3219dbe..82e43d2 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -636,28 +636,16 @@ public:
     }
 
     const MultidimensionalRange &shape = getShape(obj);
-    llvm::SmallVector<Node *> overlappingLeafNodes;
 
-    walkOverlappingLeafNodes(
-        shape, [&](Node &node) { overlappingLeafNodes.push_back(&node); });
+    auto shouldBeRemoved = [&](const Object &object) {
+      return RTreeInfo<T>::isEqual(obj, *object);
+    };
 
-    for (Node *node : overlappingLeafNodes) {
-      bool modified = false;
-      llvm::SmallVector<Object> newObjects;
-
-      for (Object &object : node->objects) {
-        if (RTreeInfo<T>::isEqual(obj, *object)) {
-          modified = true;
-        } else {
-          newObjects.push_back(std::move(object));
-        }
-      }
-
-      node->objects = std::move(newObjects);
-
-      if (modified) {
-        adjustTree(node);
-      }
+    // The nodes may be moved or erased while adjusting the tree. Thus, search
+    // again for the next leaf after each modification.
+    while (Node *node = findLeaf(shape, shouldBeRemoved)) {
+      llvm::erase_if(node->objects, shouldBeRemoved);
+      adjustTree(node);
     }
   }
 
@@ -913,6 +901,35 @@ protected:
     return node;
   }
 
+  /// Get a leaf node that overlaps the given range and has at least an object
+  /// satisfying the given condition. Return a null pointer if there is none.
+  Node *findLeaf(const MultidimensionalRange &range,
+                 llvm::function_ref<bool(const Object &)> condition) {
+    llvm::SmallVector<Node *> nodes;
+
+    if (getRoot()) {
+      nodes.push_back(getRoot());
+    }
+
+    while (!nodes.empty()) {
+      Node *node = nodes.pop_back_val();
+
+      if (!node->getBoundary().overlaps(range)) {
+        continue;
+      }
+
+      if (llvm::any_of(node->objects, condition)) {
+        return node;
+      }
+
+      for (const auto &child : node->children) {
+        nodes.push_back(child.get());
+      }
+    }
+
+    return nullptr;
+  }
+
   /// Get the node that best accommodates the insertion of a new element with a
   /// given boundary.
   static Node *
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index a3974d8..773e659 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -307,20 +307,18 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
-
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
+  auto overlapsOther = [&](const Object &object) {
+    return object->overlaps(other);
+  };
 
-  for (Node *node : overlappingNodes) {
+  // The nodes may be moved or erased while adjusting the tree. Thus, search
+  // again for the next leaf after each modification.
+  while (Node *node = findLeaf(other, overlapsOther)) {
     assert(node->isLeaf());
-    bool modified = false;
-
     llvm::SmallVector<Object> differences;
 
     for (Object &value : node->objects) {
       if (value->overlaps(other)) {
-        modified = true;
         llvm::append_range(differences, value->subtract(other));
       } else {
         differences.emplace_back(std::move(value));
@@ -329,10 +327,8 @@ void IndexSet::remove(const MultidimensionalRange &other) {
 
     node->objects = std::move(differences);
 
-    if (modified) {
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    // Split and collapse nodes, if necessary.
+    adjustTree(node);
   }
 
   assert(isValid());
-- 
2.43.0


From 89f4c57d17b696cdb9711d34ad29e2dbeae9ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 09/38] fix: bulk loading of R-trees respects the fan-out
 limits

---
 include/marco/Modeling/RTree.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 82e43d2..dd2fdab 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -811,7 +811,7 @@ protected:
       }
 
       for (size_t i = 0; i < remainingElements; ++i) {
-        nodes[i]->objects.push_back(
+        nodes[i % numOfGroups]->objects.push_back(
             std::move(objects[numOfGroups * minElements + i]));
       }
 
@@ -830,16 +830,19 @@ protected:
     while (nodes.size() > maxElements) {
       llvm::SmallVector<std::unique_ptr<Node>> newNodes;
 
-      for (size_t i = 0, e = nodes.size(); i < e; i += maxElements) {
-        auto &parent = newNodes.emplace_back(
-            std::make_unique<Node>(nullptr, nodes[i]->getBoundary()));
+      // Distribute the nodes evenly, so that all the parents have at least the
+      // minimum number of children.
+      size_t numOfParents = (nodes.size() + maxElements - 1) / maxElements;
 
-        for (size_t j = 0; j < maxElements; ++j) {
-          if (i + j >= e) {
-            break;
-          }
+      for (size_t i = 0; i < numOfParents; ++i) {
+        size_t begin = i * nodes.size() / numOfParents;
+        size_t end = (i + 1) * nodes.size() / numOfParents;
+
+        auto &parent = newNodes.emplace_back(
+            std::make_unique<Node>(nullptr, nodes[begin]->getBoundary()));
 
-          parent->add(std::move(nodes[i + j]));
+        for (size_t j = begin; j < end; ++j) {
+          parent->add(std::move(nodes[j]));
         }
 
         parent->recalcBoundary();
-- 
2.43.0


From 7b87bd11ab4c2380f15b47352df825fa1f938f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 10/38] fix: collapsing underfull R-tree nodes keeps the tree
 valid

---
 include/marco/Modeling/RTree.h | 115 ++++++++++++---------------------
 1 file changed, 40 insertions(+), 75 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index dd2fdab..612706f 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -1069,88 +1069,53 @@ protected:
       return;
     }
 
-    // Additional nodes to be collapsed may be obtained during the process.
-    llvm::SmallVector<Node *> nodesToCollapse;
-    nodesToCollapse.push_back(node);
-
-    while (!nodesToCollapse.empty()) {
-      node = nodesToCollapse.pop_back_val();
-
-      // Move the objects out of the node being removed.
-      // This is done only once, as the nodes that will be possibly visited
-      // later will not be leaves.
-      llvm::SmallVector<Object> objectsToRelocate = std::move(node->objects);
-
-      while (!node->isRoot() && node->fanOut() < minElements) {
-        // The nodes to be relocated.
-        llvm::SmallVector<std::unique_ptr<Node>> nodesToRelocate;
-
-        // Move the objects out of the node being removed.
-        for (auto &child : node->children) {
-          nodesToRelocate.push_back(std::move(child));
-        }
-
-        // Remove the node from the list of children of the parent.
-        // The node itself will be erased, and any usage of 'node' will be
-        // invalid. Therefore, we need to store the reference to the parent
-        // elsewhere.
-        Node *parent = node->getParent();
-        removeChild(parent, node);
-
-        // Relocate the orphaned objects.
-        if (!objectsToRelocate.empty() && !parent->children.empty()) {
-          for (Object &object : objectsToRelocate) {
-            // Find the new position.
-            Node *destination = chooseLeaf(parent, object.getBoundary());
-
-            // Add the value to the leaf node.
-            destination->add(std::move(object));
-            postObjectInsertionHook(*destination);
-
-            if (destination->fanOut() > maxElements) {
-              // Split the node.
-              splitNodeAndPropagate(destination);
-            } else if (destination->fanOut() < minElements) {
-              // Schedule the node for removal.
-              nodesToCollapse.push_back(destination);
-            } else {
-              updateBoundaries(destination);
-            }
-          }
-
-          objectsToRelocate.clear();
-        }
+    // Detach the nodes that do not have enough elements, up to the root. The
+    // objects are relocated only when the remaining part of the tree is valid
+    // again, as their insertion may in turn split or collapse other nodes.
+    llvm::SmallVector<Object> objectsToRelocate;
+
+    while (!node->isRoot() && node->fanOut() < minElements) {
+      extractObjects(*node, objectsToRelocate);
+
+      // The node itself will be erased, and any usage of 'node' will be
+      // invalid. Therefore, we need to store the reference to the parent
+      // elsewhere.
+      Node *parent = node->getParent();
+      removeChild(parent, node);
+
+      // Move towards the root of the tree.
+      node = parent;
+    }
 
-        // Relocate the orphaned nodes.
-        for (auto &nodeToRelocate : nodesToRelocate) {
-          // Find the new position.
-          Node *destination = chooseDestinationNode(
-              parent->children, nodeToRelocate->getBoundary());
+    // Update the boundaries.
+    updateBoundaries(node);
 
-          // Add the value to the leaf node.
-          destination->add(std::move(nodeToRelocate));
+    while (getRoot()->children.size() == 1) {
+      setRoot(std::move(getRoot()->children.front()));
+    }
 
-          if (destination->fanOut() > maxElements) {
-            // Split the node.
-            splitNodeAndPropagate(destination);
-          } else {
-            updateBoundaries(destination);
-          }
-        }
+    // Relocate the orphaned objects.
+    for (Object &object : objectsToRelocate) {
+      // Find the new position.
+      Node *destination = chooseLeaf(getRoot(), object.getBoundary());
 
-        // Move towards the root of the tree.
-        node = parent;
-      }
+      // Add the value to the leaf node.
+      destination->add(std::move(object));
+      postObjectInsertionHook(*destination);
 
-      // Update the boundaries.
-      updateBoundaries(node);
+      // Split and collapse nodes, if necessary.
+      adjustTree(destination);
+    }
+  }
 
-      assert(objectsToRelocate.empty() &&
-             "Not all objects have been relocated");
+  /// Move the objects out of a node and its descendants.
+  static void extractObjects(Node &node, llvm::SmallVectorImpl<Object> &objects) {
+    for (Object &object : node.objects) {
+      objects.push_back(std::move(object));
+    }
 
-      if (getRoot() && getRoot()->children.size() == 1) {
-        setRoot(std::move(getRoot()->children.front()));
-      }
+    for (auto &child : node.children) {
+      extractObjects(*child, objects);
     }
   }
 
-- 
2.43.0


From da8ede0889f109fb862855c3f0b83eea1c220586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 11/38] fix: integer division in accesses rounds like its
 affine expression

---
 lib/Modeling/DimensionAccessDiv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..fa0ac9d 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,10 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        // Round towards negative infinity, coherently with the affine
+        // expression.
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From 77a81454a808148c22ea3c29e15a93ae76518e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 12/38] fix: dependent iteration spaces contribute each result
 once

---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..1e8ef95 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -219,6 +219,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -249,6 +251,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From 440b68375c3b28cde218508fe33ef63bb1eb23ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 13/38] fix: the inverse of a constant access keeps iterations
 whose access is among the given ones

---
 lib/Modeling/AccessFunctionAffineConstant.cpp | 2 +-
 lib/Modeling/AccessFunctionConstant.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..fc648f9 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -89,7 +89,7 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.contains(expectedAccessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionConstant.cpp b/lib/Modeling/AccessFunctionConstant.cpp
index fe7f6bd..d353f71 100644
--- a/lib/Modeling/AccessFunctionConstant.cpp
+++ b/lib/Modeling/AccessFunctionConstant.cpp
@@ -65,7 +65,7 @@ AccessFunctionConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if (accessedIndices.contains(expectedAccessedIndices)) {
     return parentIndices;
   }
 
-- 
2.43.0


From a8d6dff513392b42d572445176ad1bb8da4da5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 14/38] fix: accesses that use a dimension twice map to the
 exact set of indices

---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..000e274 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,15 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  llvm::SmallVector<size_t> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t usage) { return usage > 1; })) {
+    // The coordinates of the mapped points are not independent from each
+    // other, and thus the image of a range is not a range.
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
-- 
2.43.0


From eb2b97d98dac4ece1086558eb48ec79ed76db244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/38] fix: the inverse mapping of affine accesses is
 restricted to the candidates and respects constants

---
 .../AccessFunctionRotoTranslation.cpp         | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 000e274..f61b126 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -215,7 +215,7 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
         accessedIndices.rank() == parentIndices.rank()) {
       IndexSet mapped = inverseAccessFunction->map(accessedIndices);
       assert(map(mapped).contains(accessedIndices));
-      return mapped;
+      return mapped.intersect(parentIndices);
     }
   }
 
@@ -246,7 +246,34 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
 
     auto reducedAccessFunction = AccessFunctionAffineMap::build(reducedDimsMap);
     auto reducedParentIndices = parentIndices.slice(usedDimensions);
-    auto reducedAccessedIndices = accessedIndices.slice(usedResults);
+
+    // Discard the accessed indices that are not compatible with the constant
+    // accesses.
+    llvm::SmallVector<MultidimensionalRange> compatibleAccessedRanges;
+
+    for (const MultidimensionalRange &accessedRange : llvm::make_range(
+             accessedIndices.rangesBegin(), accessedIndices.rangesEnd())) {
+      bool compatible = true;
+
+      for (uint64_t res = 0, e = getNumOfResults(); res < e; ++res) {
+        if (auto constantExpr = mlir::dyn_cast<mlir::AffineConstantExpr>(
+                getAffineMap().getResult(res))) {
+          compatible &= accessedRange[res].contains(constantExpr.getValue());
+        }
+      }
+
+      if (compatible) {
+        compatibleAccessedRanges.push_back(accessedRange);
+      }
+    }
+
+    if (usedResults.none()) {
+      // All the iterations access the same indices.
+      return compatibleAccessedRanges.empty() ? IndexSet() : parentIndices;
+    }
+
+    auto reducedAccessedIndices =
+        IndexSet(compatibleAccessedRanges).slice(usedResults);
 
     IndexSet reducedInverseMap = reducedAccessFunction->inverseMap(
         reducedAccessedIndices, reducedParentIndices);
@@ -278,7 +305,7 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       }
     }
 
-    return {mapped};
+    return IndexSet(mapped).intersect(parentIndices);
   }
 
   return AccessFunction::inverseMap(accessedIndices, parentIndices);
-- 
2.43.0


From 7a7b43fe7e2c379de5bf5025d6d5259292066bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 16/38] fix: remainders and rounded up quotients of affine
 expressions become accesses

---
 lib/Modeling/DimensionAccess.cpp | 50 ++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/lib/Modeling/DimensionAccess.cpp b/lib/Modeling/DimensionAccess.cpp
index 22b1cc6..54f45d1 100644
--- a/lib/Modeling/DimensionAccess.cpp
+++ b/lib/Modeling/DimensionAccess.cpp
@@ -9,6 +9,39 @@
 
 using namespace ::marco::modeling;
 
+/// Get the access corresponding to the remainder or to the rounded up quotient
+/// of two accesses. The affine simplifications introduce these operations in
+/// place of the ones they are made of.
+static std::unique_ptr<DimensionAccess>
+buildModOrCeilDiv(mlir::AffineBinaryOpExpr expression,
+                  std::unique_ptr<DimensionAccess> lhs,
+                  std::unique_ptr<DimensionAccess> rhs) {
+  mlir::MLIRContext *context = expression.getContext();
+
+  if (expression.getKind() == mlir::AffineExprKind::Mod) {
+    // a mod b = a - (a floordiv b) * b
+    auto quotient = std::make_unique<DimensionAccessDiv>(context, lhs->clone(),
+                                                         rhs->clone());
+
+    return std::make_unique<DimensionAccessSub>(
+        context, std::move(lhs),
+        std::make_unique<DimensionAccessMul>(context, std::move(quotient),
+                                             std::move(rhs)));
+  }
+
+  // a ceildiv b = 0 - ((0 - a) floordiv b)
+  assert(expression.getKind() == mlir::AffineExprKind::CeilDiv);
+
+  auto negated = std::make_unique<DimensionAccessSub>(
+      context, std::make_unique<DimensionAccessConstant>(context, 0),
+      std::move(lhs));
+
+  return std::make_unique<DimensionAccessSub>(
+      context, std::make_unique<DimensionAccessConstant>(context, 0),
+      std::make_unique<DimensionAccessDiv>(context, std::move(negated),
+                                           std::move(rhs)));
+}
+
 namespace marco::modeling {
 DimensionAccess::Redirect::Redirect() {}
 
@@ -90,6 +123,13 @@ DimensionAccess::build(mlir::AffineExpr expression) {
           binaryExpr.getContext(), DimensionAccess::build(binaryExpr.getLHS()),
           DimensionAccess::build(binaryExpr.getRHS()));
     }
+
+    if (kind == mlir::AffineExprKind::Mod ||
+        kind == mlir::AffineExprKind::CeilDiv) {
+      return buildModOrCeilDiv(binaryExpr,
+                               DimensionAccess::build(binaryExpr.getLHS()),
+                               DimensionAccess::build(binaryExpr.getRHS()));
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
@@ -146,6 +186,16 @@ DimensionAccess::getDimensionAccessFromExtendedMap(
           DimensionAccess::getDimensionAccessFromExtendedMap(
               binaryExpr.getRHS(), fakeDimensionsMap));
     }
+
+    if (kind == mlir::AffineExprKind::Mod ||
+        kind == mlir::AffineExprKind::CeilDiv) {
+      return buildModOrCeilDiv(
+          binaryExpr,
+          DimensionAccess::getDimensionAccessFromExtendedMap(
+              binaryExpr.getLHS(), fakeDimensionsMap),
+          DimensionAccess::getDimensionAccessFromExtendedMap(
+              binaryExpr.getRHS(), fakeDimensionsMap));
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
-- 
2.43.0


From b1f5986c5e10efbafd45c5b10165fa235c58c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 17/38] fix: composing with a multi-valued access function
 keeps its ranges and iteration spaces

---
 lib/Modeling/AccessFunction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..c81e8b6 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -190,6 +190,12 @@ AccessFunction::combine(const AccessFunction &other) const {
     resultFakeDimensionsMap[lhsDimension] = rhsFakeDimensionsMap[rhsDimension];
   }
 
+  // The fake dimensions of the left-hand side are preserved by the composition.
+  for (const auto &fakeDimension : lhsFakeDimensionsMap) {
+    resultFakeDimensionsMap[fakeDimension.getFirst()] =
+        fakeDimension.getSecond();
+  }
+
   // Remove the additional dimensions.
   return AccessFunction::fromExtendedMap(combinedAffineMap,
                                          resultFakeDimensionsMap);
-- 
2.43.0


From e75d8bf6102f20b8428d37b22a2c723f2d53107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 18/38] fix: unsetting an element of an incidence matrix keeps
 the groups that do not contain it

---
 lib/Modeling/MCIM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..5825d97 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -450,10 +450,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    group->unset(equation, variable);
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
-- 
2.43.0


From 5f6853ca80fc8e7ffc1c869e36d209cc1a0fb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 19/38] fix: restricting the variable space of an incidence
 matrix restricts the columns of its points

---
 lib/Modeling/MCIM.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 5825d97..120744c 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -187,14 +187,15 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
     llvm::SmallVector<Range> ranges;
 
     IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
+        multidimRange.takeLastDimensions(newVariableSpace->rank()));
+
+    MultidimensionalRange equations = multidimRange.takeFirstDimensions(
+        points.rank() - newVariableSpace->rank());
 
     for (const MultidimensionalRange &intersectionMultidimRange :
          llvm::make_range(intersection.rangesBegin(),
                           intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
+      newPoints += equations.append(intersectionMultidimRange);
     }
   }
 
-- 
2.43.0


From 26689107fc054bdf3d43c5bcfd4bdf67809bb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 20/38] fix: moving an incidence matrix to other spaces keeps
 its points and drops the excluded columns

---
 lib/Modeling/MCIM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 120744c..3f784cb 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -552,7 +552,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
+    if (!newVariableSpace->contains(getVariableSpace())) {
       auto filteredGroup = group.filterValues(*newVariableSpace);
       return filteredGroup->getKeys().intersect(*newEquationSpace);
     }
@@ -570,7 +570,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
+  if (!points.empty()) {
     result.points =
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
-- 
2.43.0


From a9bfdfd81e5f07ffc5ea90fd21d6b2adc5ae6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 21/38] fix: the local matching solutions of the second access
 function are not skipped

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..6426ca4 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -400,7 +400,6 @@ void VAFSolutions::fetchNext() {
   if (generator == nullptr) {
     if (currentAccessFunction < accessFunctions.size()) {
       generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
     }
   }
 
-- 
2.43.0


From a600ec6d0ab415c8dc608c34132ad512a6654ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 22/38] fix: access functions are sorted with a strict ordering

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 6426ca4..171d487 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -454,7 +454,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
-- 
2.43.0


From 2bf8996b244b7cf1622b57cabe0d5e2a1c917f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 23/38] fix: constant accesses to ranges have as many local
 matching solutions as elements

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 171d487..c376334 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -487,7 +487,7 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  return equationIndices->size() * accessFunction.map(*equationIndices).size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From 32bcf4a60dad03ff3802ad9a704924e3cc7477b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 24/38] fix: subtracting an incidence matrix removes exactly
 its elements

---
 lib/Modeling/MCIM.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 3f784cb..559798e 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -295,11 +295,8 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
   assert(getVariableSpace() == rhs.getVariableSpace() &&
          "Different variable ranges");
 
-  std::vector<std::unique_ptr<MCIMGroup>> oldGroups;
-  swap(oldGroups, groups);
-
   for (auto &rhsGroup : rhs.groups) {
-    for (auto &group : oldGroups) {
+    for (auto &group : groups) {
       if (group->getAccessFunction() == rhsGroup->getAccessFunction()) {
         group->removeKeys(rhsGroup->getKeys());
       } else {
@@ -324,12 +321,41 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
           continue;
         }
 
+        // The access functions may map a common key to different values.
         IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
-        group->removeKeys(commonKeys);
+        IndexSet removedKeys;
+
+        for (const Point &key : commonKeys) {
+          if (group->getAccessFunction().map(key) ==
+              rhsGroup->getAccessFunction().map(key)) {
+            removedKeys += key;
+          }
+        }
+
+        group->removeKeys(removedKeys);
       }
     }
   }
 
+  // Remove the points that belong to the groups of the other matrix.
+  IndexSet removedPoints;
+
+  for (const Point &point : points) {
+    Point equation = point.takeFront(getEquationSpace().rank());
+    Point variable = point.takeBack(getVariableSpace().rank());
+
+    if (llvm::any_of(rhs.groups, [&](const std::unique_ptr<MCIMGroup> &group) {
+          return group->has(equation, variable);
+        })) {
+      removedPoints += point;
+    }
+  }
+
+  points -= removedPoints;
+
+  std::vector<std::unique_ptr<MCIMGroup>> oldGroups;
+  swap(oldGroups, groups);
+
   for (auto &group : oldGroups) {
     if (!group->empty()) {
       // Remove the keys that overlap with the extra points.
-- 
2.43.0


From 9c173c957b7495daf8614f7d6110787509774ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 25/38] fix: report tokens that cannot start a primary
 expression instead of dereferencing a null node

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..ec4bd4f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1457,7 +1457,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     result = std::move(newResult);
   }
 
-  assert(result != nullptr);
+  if (!result) {
+    emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
+    return std::nullopt;
+  }
 
   if (lookahead[0].isa<TokenKind::LSquare>()) {
     TRY(arraySubscripts, parseArraySubscripts());
-- 
2.43.0


From 78ef9c7aba3ca016ced5796268d97e3657949d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 26/38] fix: report tokens that do not belong to a class
 section instead of looping forever

---
 lib/Parser/BaseModelica/Parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index ec4bd4f..e48ccd1 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -290,13 +290,19 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
       continue;
     }
 
-    if (firstElementListParsable) {
+    if (firstElementListParsable &&
+        !lookahead[0].isa<TokenKind::Initial>()) {
       TRY(elementList, parseElementList(true));
 
       for (auto &element : *elementList) {
         members.push_back(std::move(element));
       }
+
+      continue;
     }
+
+    emitUnexpectedTokenError(lookahead[0], TokenKind::End);
+    return std::nullopt;
   }
 
   // Parse the optional 'external'-related information.
-- 
2.43.0


From 8c198dd8199389ddb6ae827b20e20d7a2500bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 27/38] fix: accept initial algorithm sections

---
 lib/Parser/BaseModelica/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e48ccd1..f03bffb 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -524,6 +524,7 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
   SourceRange loc = getLocation();
 
@@ -532,6 +533,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
@@ -544,6 +546,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From 56b9b2d47dee6bde65215712174f5ba4a70c016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 28/38] fix: when equations end with "end when"

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f03bffb..5ba3d3b 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1004,7 +1004,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
-- 
2.43.0


From dc5ead6ada9254c8fd4094aeda162c7bd38b266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 29/38] fix: the condition of a when statement is followed by
 "then"

---
 lib/Parser/BaseModelica/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 5ba3d3b..30a5602 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1028,7 +1028,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From 1120f3dffeb83de3c50991f24bcd71b881c82331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 30/38] fix: accept array dimensions starting with an integer
 literal

---
 lib/Parser/BaseModelica/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 30a5602..e215ad6 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1941,7 +1941,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
-- 
2.43.0


From f55a9defdaf4069f72894885c4ca7ef79068be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 31/38] fix: read the name of a type only after checking that
 it is an identifier

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e215ad6..ab8bab6 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1889,8 +1889,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1910,9 +1910,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
     path.push_back(name);
 
     while (accept<TokenKind::Dot>()) {
-      loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      loc.end = getLocation().end;
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
-- 
2.43.0


From b5007c28e329141877e6437b11d53ac87e1ffb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 32/38] fix: the items of an output expression list are
 separated by commas

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index ab8bab6..081d3d4 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1733,7 +1733,10 @@ Parser::parseOutputExpressionList() {
 
     TRY(expression, parseExpression());
     expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+
+    if (!lookahead[0].isa<TokenKind::RPar>()) {
+      EXPECT(TokenKind::Comma);
+    }
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From 0ab4d910c327a6ea89f50f4b747818aec649573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 33/38] fix: report unsupported redeclarations and replaceable
 elements

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 081d3d4..0442f98 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -513,13 +513,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // TODO: handle redeclarations.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // TODO: handle replaceable elements.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From 3a01cf20729050d23a4cdc63febd618c0e449d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 34/38] fix: only functions can be defined as partial
 derivatives

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 0442f98..5b39af4 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -187,9 +187,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   loc.end = name->getLocation().end;
   result->setLocation(loc);
 
-  if (accept<TokenKind::EqualityOperator>()) {
+  if (result->isa<StandardFunction>() &&
+      accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From 09cf0b73c6e6dbe72bb5214172323e2a228281d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 35/38] fix: accept call statements without arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 5b39af4..6080840 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -670,10 +670,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
+    TRY(functionArguments, parseFunctionCallArgs());
 
     auto callee = std::make_unique<ComponentReference>(loc);
     loc.end = getLocation().end;
-- 
2.43.0


From 8b4b1b4c02f3d022a40a774d5a2631438a75fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 36/38] fix: accept a class annotation behind a list of
 elements

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 6080840..08a667b 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1810,7 +1810,8 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
-         !lookahead[0].isa<TokenKind::External>()) {
+         !lookahead[0].isa<TokenKind::External>() &&
+         !lookahead[0].isa<TokenKind::Annotation>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
     members.push_back(std::move(*member));
-- 
2.43.0


From bde4df1d7b6fd9b0d5389267b2b58eec111c3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:29 +0000
Subject: [PATCH 37/38] fix: else-if and else-when equations are stored in
 their own lists

---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..e90afc6 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From c93ee76a79ece7690d319ec3abcb806a9e31ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:29 +0000
Subject: [PATCH 38/38] fix: when equations have their own node kind

---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e90afc6..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0

