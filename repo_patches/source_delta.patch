From aed8c6e2f1a450202c4f7817fd630705084571e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 01/45] fix: BTreeOLC lookup returned an uninitialised flag for
 absent keys

---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..10cc283 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -391,7 +391,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..94fd1e2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -390,7 +390,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From 3e24e8d5614ee26314e7357c5fde9fa8a7eb87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 02/45] fix: ARTOLC range scans dereferenced null or leaf
 children and misjudged range ends above the last level

---
 ARTOLC/Tree.cpp | 37 +++++++++++++++++++++++++++++++++----
 ARTOLC/Tree.h   |  2 ++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..1eeb508 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -99,6 +99,13 @@ namespace ART_OLC {
         }
         EpocheGuard epocheGuard(threadEpocheInfo);
         TID toContinue = 0;
+        // the range is [start, end); a leaf may sit above the level at which its key leaves the range
+        auto leafBefore = [this](const N *leaf, const Key &bound) {
+            Key key;
+            loadKey(N::getLeaf(leaf), key);
+            int cmp = memcmp(&key[0], &bound[0], std::min(key.getKeyLen(), bound.getKeyLen()));
+            return cmp < 0 || (cmp == 0 && key.getKeyLen() < bound.getKeyLen());
+        };
         std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue, &copy](const N *node) {
             if (N::isLeaf(node)) {
                 if (resultsFound == resultSize) {
@@ -120,10 +127,10 @@ namespace ART_OLC {
                 }
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &start, &findStart, &toContinue, this](
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &leafBefore, &start, &findStart, &toContinue, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
-                copy(node);
+                if (!leafBefore(node, start)) copy(node);
                 return;
             }
             uint64_t v;
@@ -154,7 +161,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
-                        copy(node);
+                        if (!leafBefore(node, start)) copy(node);
                         return;
                     }
                     goto readAgain;
@@ -190,9 +197,10 @@ namespace ART_OLC {
                     break;
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &end, &toContinue, &findEnd, this](
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &leafBefore, &end, &toContinue, &findEnd, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
+                if (leafBefore(node, end)) copy(node);
                 return;
             }
             uint64_t v;
@@ -221,6 +229,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
+                        if (leafBefore(node, end)) copy(node);
                         return;
                     }
                     goto readAgain;
@@ -279,6 +288,7 @@ namespace ART_OLC {
             PCEqualsResults prefixResult;
             v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
+            const uint32_t nodeLevel = level;
             prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
             if (needRestart) goto restart;
             if (parentNode != nullptr) {
@@ -296,6 +306,15 @@ namespace ART_OLC {
                     copy(node);
                     break;
                 }
+                // start and end part within the prefix (only the root has no parent, and it has no prefix)
+                case PCEqualsResults::StartMatch: {
+                    findStart(node, start[nodeLevel - 1], nodeLevel, parentNode, vp);
+                    break;
+                }
+                case PCEqualsResults::EndMatch: {
+                    findEnd(node, end[nodeLevel - 1], nodeLevel, parentNode, vp);
+                    break;
+                }
                 case PCEqualsResults::BothMatch: {
                     uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
                     uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -321,6 +340,13 @@ namespace ART_OLC {
                         nextNode = N::getChild(startLevel, node);
                         node->readUnlockOrRestart(v, needRestart);
                         if (needRestart) goto restart;
+                        if (nextNode == nullptr) {
+                            return false;
+                        }
+                        if (N::isLeaf(nextNode)) {
+                            if (!leafBefore(nextNode, start) && leafBefore(nextNode, end)) copy(nextNode);
+                            break;
+                        }
                         level++;
                         continue;
                     }
@@ -650,6 +676,9 @@ namespace ART_OLC {
                 } else if (curKey < startLevel || curKey > endLevel) {
                     return PCEqualsResults::NoMatch;
                 }
+                if (startLevel != endLevel) {
+                    return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
+                }
                 ++level;
             }
         }
diff --git a/ARTOLC/Tree.h b/ARTOLC/Tree.h
index c104314..4eb0099 100644
--- a/ARTOLC/Tree.h
+++ b/ARTOLC/Tree.h
@@ -42,6 +42,8 @@ namespace ART_OLC {
         };
         enum class PCEqualsResults : uint8_t {
             BothMatch,
+            StartMatch,
+            EndMatch,
             Contained,
             NoMatch
         };
-- 
2.43.0


From 447d439e5cd4b6b5c35cd557a1614a5ee6b1df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 03/45] fix: OptiQL ART range scans dereferenced null or leaf
 children and misjudged range ends above the last level

---
 OptiQL/Tree.cpp | 89 ++++++++++++++++++++++++++++++++-----------------
 OptiQL/Tree.h   |  2 +-
 2 files changed, 59 insertions(+), 32 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..a9a2fe7 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -87,6 +87,13 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
   }
 
   TID toContinue = 0;
+  // the range is [start, end); a leaf may sit above the level at which its key leaves the range
+  auto leafBefore = [this](const N *leaf, const Key &bound) {
+    Key key;
+    loadKey(N::getLeaf(leaf), key);
+    int cmp = memcmp(&key[0], &bound[0], std::min(key.getKeyLen(), bound.getKeyLen()));
+    return cmp < 0 || (cmp == 0 && key.getKeyLen() < bound.getKeyLen());
+  };
   std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
                                          &copy](const N *node) {
     if (N::isLeaf(node)) {
@@ -110,10 +117,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
     }
   };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
+      [&copy, &leafBefore, &start, &findStart, &toContinue, this](
+          N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
-          copy(node);
+          if (!leafBefore(node, start)) copy(node);
           return;
         }
         uint64_t v;
@@ -144,7 +151,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              if (!leafBefore(node, start)) copy(node);
               return;
             }
             goto readAgain;
@@ -181,9 +188,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
         }
       };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd =
-      [&copy, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
+      [&copy, &leafBefore, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
                                                  const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
+          if (leafBefore(node, end)) copy(node);
           return;
         }
         uint64_t v;
@@ -213,6 +221,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
+              if (leafBefore(node, end)) copy(node);
               return;
             }
             goto readAgain;
@@ -267,6 +276,7 @@ restart:
     PCEqualsResults prefixResult;
     v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
+    const uint32_t nodeLevel = level;
     prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
     if (needRestart) goto restart;
     if (parentNode != nullptr) {
@@ -284,6 +294,15 @@ restart:
         copy(node);
         break;
       }
+      // start and end part within the prefix (only the root has no parent, and it has no prefix)
+      case PCEqualsResults::StartMatch: {
+        findStart(node, start[nodeLevel - 1], nodeLevel, parentNode, vp);
+        break;
+      }
+      case PCEqualsResults::EndMatch: {
+        findEnd(node, end[nodeLevel - 1], nodeLevel, parentNode, vp);
+        break;
+      }
       case PCEqualsResults::BothMatch: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
         uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -309,6 +328,13 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) {
+            return false;
+          }
+          if (N::isLeaf(nextNode)) {
+            if (!leafBefore(nextNode, start) && leafBefore(nextNode, end)) copy(nextNode);
+            break;
+          }
           level++;
           continue;
         }
@@ -328,6 +354,13 @@ restart:
 bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
                        std::size_t &resultsFound) const {
   TID toContinue = 0;
+  // the range starts at start; a leaf may sit above the level at which its key leaves the range
+  auto leafBefore = [this](const N *leaf, const Key &bound) {
+    Key key;
+    loadKey(N::getLeaf(leaf), key);
+    int cmp = memcmp(&key[0], &bound[0], std::min(key.getKeyLen(), bound.getKeyLen()));
+    return cmp < 0 || (cmp == 0 && key.getKeyLen() < bound.getKeyLen());
+  };
   std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
                                          &copy](const N *node) {
     if (N::isLeaf(node)) {
@@ -351,10 +384,10 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
     }
   };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
+      [&copy, &leafBefore, &start, &findStart, &toContinue, this](
+          N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
-          copy(node);
+          if (!leafBefore(node, start)) copy(node);
           return;
         }
         uint64_t v;
@@ -385,7 +418,7 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              if (!leafBefore(node, start)) copy(node);
               return;
             }
             goto readAgain;
@@ -457,29 +490,20 @@ restart:
       case PCCompareResults::Equal:
       case PCCompareResults::Bigger: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-        uint8_t endLevel = 255;
-        if (startLevel != endLevel) {
-          std::tuple<uint8_t, N *> children[256];
-          uint32_t childrenCount = 0;
-          v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
-          for (uint32_t i = 0; i < childrenCount; ++i) {
-            const uint8_t k = std::get<0>(children[i]);
-            N *n = std::get<1>(children[i]);
-            if (k == startLevel) {
-              findStart(n, k, level + 1, node, v);
-            } else if (k > startLevel) {
-              copy(n);
-            }
-            if (toContinue) {
-              break;
-            }
+        std::tuple<uint8_t, N *> children[256];
+        uint32_t childrenCount = 0;
+        v = N::getChildren(node, startLevel, 255, children, childrenCount);
+        for (uint32_t i = 0; i < childrenCount; ++i) {
+          const uint8_t k = std::get<0>(children[i]);
+          N *n = std::get<1>(children[i]);
+          if (k == startLevel) {
+            findStart(n, k, level + 1, node, v);
+          } else if (k > startLevel) {
+            copy(n);
+          }
+          if (toContinue) {
+            break;
           }
-        } else {
-          nextNode = N::getChild(startLevel, node);
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto restart;
-          level++;
-          continue;
         }
         break;
       }
@@ -1428,6 +1452,9 @@ typename Tree::PCEqualsResults Tree::checkPrefixEquals(const N *n, uint32_t &lev
       } else if (curKey < startLevel || curKey > endLevel) {
         return PCEqualsResults::NoMatch;
       }
+      if (startLevel != endLevel) {
+        return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
+      }
       ++level;
     }
   }
diff --git a/OptiQL/Tree.h b/OptiQL/Tree.h
index 1b2123c..352395f 100644
--- a/OptiQL/Tree.h
+++ b/OptiQL/Tree.h
@@ -42,7 +42,7 @@ class Tree {
     Equal,
     Bigger,
   };
-  enum class PCEqualsResults : uint8_t { BothMatch, Contained, NoMatch };
+  enum class PCEqualsResults : uint8_t { BothMatch, StartMatch, EndMatch, Contained, NoMatch };
   static CheckPrefixResult checkPrefix(N *n, const Key &k, uint32_t &level);
 
   static CheckPrefixPessimisticResult checkPrefixPessimistic(
-- 
2.43.0


From cfdd64b94608bf28aceb5d45da312d570bca129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 04/45] fix: ART remove validates the parent after latching a
 child, a merge may have changed the child's prefix level

---
 ARTOLC/Tree.cpp | 6 ++++++
 OptiQL/Tree.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 1eeb508..7183ddb 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -504,6 +504,12 @@ namespace ART_OLC {
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
 
+            // node may have been merged with its parent meanwhile: its prefix then starts at another level
+            if (parentNode != nullptr) {
+                parentNode->readUnlockOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
+
             switch (checkPrefix(node, k, level)) { // increases level
                 case CheckPrefixResult::NoMatch:
                     node->readUnlockOrRestart(v, needRestart);
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a9a2fe7..33a0b8e 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1256,6 +1256,12 @@ restart:
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
 
+    // node may have been merged with its parent meanwhile: its prefix then starts at another level
+    if (parentNode != nullptr) {
+      parentNode->readUnlockOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
+
     switch (checkPrefix(node, k, level)) {  // increases level
       case CheckPrefixResult::NoMatch:
         node->readUnlockOrRestart(v, needRestart);
-- 
2.43.0


From e17edb583f5bb7f84b7a99cef6b4a21e69d4bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 05/45] fix: ARTOLC range scans hung on obsolete nodes and read
 drifted levels; such a scan starts over

---
 ARTOLC/N.cpp    |   9 +++++
 ARTOLC/N.h      |   5 +++
 ARTOLC/N16.cpp  |   3 +-
 ARTOLC/N256.cpp |   3 +-
 ARTOLC/N4.cpp   |   3 +-
 ARTOLC/N48.cpp  |   3 +-
 ARTOLC/Tree.cpp | 104 +++++++++++++++++-------------------------------
 7 files changed, 54 insertions(+), 76 deletions(-)

diff --git a/ARTOLC/N.cpp b/ARTOLC/N.cpp
index 376e965..fb363e3 100644
--- a/ARTOLC/N.cpp
+++ b/ARTOLC/N.cpp
@@ -279,6 +279,15 @@ namespace ART_OLC {
         //return version;
     }
 
+    uint64_t N::readLockOrFrozen() const {
+        uint64_t version = typeVersionLockObsolete.load();
+        while (isLocked(version)) {
+            _mm_pause();
+            version = typeVersionLockObsolete.load();
+        }
+        return version;
+    }
+
     bool N::isObsolete(uint64_t version) {
         return (version & 1) == 1;
     }
diff --git a/ARTOLC/N.h b/ARTOLC/N.h
index eaf54e0..38532d8 100644
--- a/ARTOLC/N.h
+++ b/ARTOLC/N.h
@@ -74,6 +74,11 @@ namespace ART_OLC {
 
         uint64_t readLockOrRestart(bool &needRestart) const;
 
+        /**
+         * like readLockOrRestart, but waits for a writer and accepts an obsolete node, whose content does not change any more
+         */
+        uint64_t readLockOrFrozen() const;
+
         /**
          * returns true if node hasn't been changed in between
          */
diff --git a/ARTOLC/N16.cpp b/ARTOLC/N16.cpp
index be6f97e..ba75b99 100644
--- a/ARTOLC/N16.cpp
+++ b/ARTOLC/N16.cpp
@@ -90,8 +90,7 @@ namespace ART_OLC {
         restart:
         bool needRestart = false;
         uint64_t v;
-        v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        v = readLockOrFrozen();
         childrenCount = 0;
         auto startPos = getChildPos(start);
         auto endPos = getChildPos(end);
diff --git a/ARTOLC/N256.cpp b/ARTOLC/N256.cpp
index c667a79..2e16e68 100644
--- a/ARTOLC/N256.cpp
+++ b/ARTOLC/N256.cpp
@@ -68,8 +68,7 @@ namespace ART_OLC {
         restart:
         bool needRestart = false;
         uint64_t v;
-        v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        v = readLockOrFrozen();
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->children[i] != nullptr) {
diff --git a/ARTOLC/N4.cpp b/ARTOLC/N4.cpp
index 0a3d4ea..6e5408a 100644
--- a/ARTOLC/N4.cpp
+++ b/ARTOLC/N4.cpp
@@ -93,8 +93,7 @@ namespace ART_OLC {
         restart:
         bool needRestart = false;
         uint64_t v;
-        v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        v = readLockOrFrozen();
         childrenCount = 0;
         for (uint32_t i = 0; i < count; ++i) {
             if (this->keys[i] >= start && this->keys[i] <= end) {
diff --git a/ARTOLC/N48.cpp b/ARTOLC/N48.cpp
index b9d1bfb..6932251 100644
--- a/ARTOLC/N48.cpp
+++ b/ARTOLC/N48.cpp
@@ -80,8 +80,7 @@ namespace ART_OLC {
         restart:
         bool needRestart = false;
         uint64_t v;
-        v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        v = readLockOrFrozen();
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->childIndex[i] != emptyMarker) {
diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 7183ddb..17ba3ed 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -99,6 +99,8 @@ namespace ART_OLC {
         }
         EpocheGuard epocheGuard(threadEpocheInfo);
         TID toContinue = 0;
+        // set when a node on a boundary path of the scan has changed under it: the scan starts over
+        bool scanAgain = false;
         // the range is [start, end); a leaf may sit above the level at which its key leaves the range
         auto leafBefore = [this](const N *leaf, const Key &bound) {
             Key key;
@@ -127,7 +129,7 @@ namespace ART_OLC {
                 }
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &leafBefore, &start, &findStart, &toContinue, this](
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &leafBefore, &start, &findStart, &toContinue, &scanAgain, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
                 if (!leafBefore(node, start)) copy(node);
@@ -136,38 +138,14 @@ namespace ART_OLC {
             uint64_t v;
             PCCompareResults prefixResult;
 
-            {
-                readAgain:
-                bool needRestart = false;
-                v = node->readLockOrRestart(needRestart);
-                if (needRestart) goto readAgain;
-
-                prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-                if (needRestart) goto readAgain;
-
-                parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) {
-                    readParentAgain:
-		  needRestart = false;
-                    vp = parentNode->readLockOrRestart(needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    node = N::getChild(nodeK, parentNode);
-
-                    parentNode->readUnlockOrRestart(vp, needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    if (node == nullptr) {
-                        return;
-                    }
-                    if (N::isLeaf(node)) {
-                        if (!leafBefore(node, start)) copy(node);
-                        return;
-                    }
-                    goto readAgain;
-                }
-                node->readUnlockOrRestart(v, needRestart);
-                if (needRestart) goto readAgain;
+            bool needRestart = false;
+            v = node->readLockOrRestart(needRestart);
+            if (!needRestart) prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
+            if (!needRestart) parentNode->readUnlockOrRestart(vp, needRestart);
+            if (!needRestart) node->readUnlockOrRestart(v, needRestart);
+            if (needRestart) {
+                scanAgain = true;
+                return;
             }
 
             switch (prefixResult) {
@@ -179,6 +157,10 @@ namespace ART_OLC {
                     std::tuple<uint8_t, N *> children[256];
                     uint32_t childrenCount = 0;
                     v = N::getChildren(node, startLevel, 255, children, childrenCount);
+                    if (N::isObsolete(v)) { // the prefixes of its children may have changed
+                        scanAgain = true;
+                        return;
+                    }
                     for (uint32_t i = 0; i < childrenCount; ++i) {
                         const uint8_t k = std::get<0>(children[i]);
                         N *n = std::get<1>(children[i]);
@@ -187,7 +169,7 @@ namespace ART_OLC {
                         } else if (k > startLevel) {
                             copy(n);
                         }
-                        if (toContinue != 0) {
+                        if (toContinue != 0 || scanAgain) {
                             break;
                         }
                     }
@@ -197,7 +179,7 @@ namespace ART_OLC {
                     break;
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &leafBefore, &end, &toContinue, &findEnd, this](
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &leafBefore, &end, &toContinue, &scanAgain, &findEnd, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
                 if (leafBefore(node, end)) copy(node);
@@ -205,38 +187,16 @@ namespace ART_OLC {
             }
             uint64_t v;
             PCCompareResults prefixResult;
-            {
-                readAgain:
-                bool needRestart = false;
-                v = node->readLockOrRestart(needRestart);
-                if (needRestart) goto readAgain;
-
-                prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
-                if (needRestart) goto readAgain;
-
-                parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) {
-                    readParentAgain:
-                    vp = parentNode->readLockOrRestart(needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    node = N::getChild(nodeK, parentNode);
-
-                    parentNode->readUnlockOrRestart(vp, needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    if (node == nullptr) {
-                        return;
-                    }
-                    if (N::isLeaf(node)) {
-                        if (leafBefore(node, end)) copy(node);
-                        return;
-                    }
-                    goto readAgain;
-                }
-                node->readUnlockOrRestart(v, needRestart);
-                if (needRestart) goto readAgain;
+            bool needRestart = false;
+            v = node->readLockOrRestart(needRestart);
+            if (!needRestart) prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
+            if (!needRestart) parentNode->readUnlockOrRestart(vp, needRestart);
+            if (!needRestart) node->readUnlockOrRestart(v, needRestart);
+            if (needRestart) {
+                scanAgain = true;
+                return;
             }
+
             switch (prefixResult) {
                 case PCCompareResults::Smaller:
                     copy(node);
@@ -246,6 +206,10 @@ namespace ART_OLC {
                     std::tuple<uint8_t, N *> children[256];
                     uint32_t childrenCount = 0;
                     v = N::getChildren(node, 0, endLevel, children, childrenCount);
+                    if (N::isObsolete(v)) { // the prefixes of its children may have changed
+                        scanAgain = true;
+                        return;
+                    }
                     for (uint32_t i = 0; i < childrenCount; ++i) {
                         const uint8_t k = std::get<0>(children[i]);
                         N *n = std::get<1>(children[i]);
@@ -254,7 +218,7 @@ namespace ART_OLC {
                         } else if (k < endLevel) {
                             copy(n);
                         }
-                        if (toContinue != 0) {
+                        if (toContinue != 0 || scanAgain) {
                             break;
                         }
                     }
@@ -273,6 +237,8 @@ namespace ART_OLC {
         bool needRestart = false;
 
         resultsFound = 0;
+        toContinue = 0;
+        scanAgain = false;
 
         uint32_t level = 0;
         N *node = nullptr;
@@ -322,6 +288,7 @@ namespace ART_OLC {
                         std::tuple<uint8_t, N *> children[256];
                         uint32_t childrenCount = 0;
                         v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
+                        if (N::isObsolete(v)) goto restart;
                         for (uint32_t i = 0; i < childrenCount; ++i) {
                             const uint8_t k = std::get<0>(children[i]);
                             N *n = std::get<1>(children[i]);
@@ -332,7 +299,7 @@ namespace ART_OLC {
                             } else if (k == endLevel) {
                                 findEnd(n, k, level + 1, node, v);
                             }
-                            if (toContinue) {
+                            if (toContinue || scanAgain) {
                                 break;
                             }
                         }
@@ -355,6 +322,7 @@ namespace ART_OLC {
             }
             break;
         }
+        if (scanAgain) goto restart;
         if (toContinue != 0) {
             loadKey(toContinue, continueKey);
             return true;
-- 
2.43.0


From a1e6019e1306cf1d448b804acb8164b494d3db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 06/45] fix: OptiQL ART range scans hung on obsolete nodes and
 read drifted levels; such a scan starts over

---
 OptiQL/N16.cpp  |   4 +-
 OptiQL/N256.cpp |   4 +-
 OptiQL/N4.cpp   |   4 +-
 OptiQL/N48.cpp  |   4 +-
 OptiQL/Tree.cpp | 162 +++++++++++++++++-------------------------------
 5 files changed, 66 insertions(+), 112 deletions(-)

diff --git a/OptiQL/N16.cpp b/OptiQL/N16.cpp
index 09d27a3..5a0906f 100644
--- a/OptiQL/N16.cpp
+++ b/OptiQL/N16.cpp
@@ -89,7 +89,7 @@ uint64_t N16::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *
 restart:
   bool needRestart = false;
   uint64_t v;
-  v = readLockOrRestart(needRestart);
+  v = lock.readLockOrRestart(needRestart);  // an obsolete node does not change any more
   if (needRestart) goto restart;
   childrenCount = 0;
   auto startPos = getChildPos(start);
@@ -104,7 +104,7 @@ restart:
     children[childrenCount] = std::make_tuple(flipSign(keys[p - this->children]), *p);
     childrenCount++;
   }
-  readUnlockOrRestart(v, needRestart);
+  lock.readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
 }
diff --git a/OptiQL/N256.cpp b/OptiQL/N256.cpp
index f267577..e6c0641 100644
--- a/OptiQL/N256.cpp
+++ b/OptiQL/N256.cpp
@@ -64,7 +64,7 @@ uint64_t N256::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *>
 restart:
   bool needRestart = false;
   uint64_t v;
-  v = readLockOrRestart(needRestart);
+  v = lock.readLockOrRestart(needRestart);  // an obsolete node does not change any more
   if (needRestart) goto restart;
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
@@ -73,7 +73,7 @@ restart:
       childrenCount++;
     }
   }
-  readUnlockOrRestart(v, needRestart);
+  lock.readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
 }
diff --git a/OptiQL/N4.cpp b/OptiQL/N4.cpp
index 8ad79bf..58efcc4 100644
--- a/OptiQL/N4.cpp
+++ b/OptiQL/N4.cpp
@@ -92,7 +92,7 @@ uint64_t N4::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&
 restart:
   bool needRestart = false;
   uint64_t v;
-  v = readLockOrRestart(needRestart);
+  v = lock.readLockOrRestart(needRestart);  // an obsolete node does not change any more
   if (needRestart) goto restart;
   childrenCount = 0;
   for (uint32_t i = 0; i < count; ++i) {
@@ -101,7 +101,7 @@ restart:
       childrenCount++;
     }
   }
-  readUnlockOrRestart(v, needRestart);
+  lock.readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
 }
diff --git a/OptiQL/N48.cpp b/OptiQL/N48.cpp
index a40d6c0..da15265 100644
--- a/OptiQL/N48.cpp
+++ b/OptiQL/N48.cpp
@@ -79,7 +79,7 @@ uint64_t N48::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *
 restart:
   bool needRestart = false;
   uint64_t v;
-  v = readLockOrRestart(needRestart);
+  v = lock.readLockOrRestart(needRestart);  // an obsolete node does not change any more
   if (needRestart) goto restart;
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
@@ -88,7 +88,7 @@ restart:
       childrenCount++;
     }
   }
-  readUnlockOrRestart(v, needRestart);
+  lock.readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
   return v;
 }
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 33a0b8e..8ec1951 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -87,6 +87,8 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
   }
 
   TID toContinue = 0;
+  // set when a node on a boundary path of the scan has changed under it: the scan starts over
+  bool scanAgain = false;
   // the range is [start, end); a leaf may sit above the level at which its key leaves the range
   auto leafBefore = [this](const N *leaf, const Key &bound) {
     Key key;
@@ -117,7 +119,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
     }
   };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &leafBefore, &start, &findStart, &toContinue, this](
+      [&copy, &leafBefore, &start, &findStart, &toContinue, &scanAgain, this](
           N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
           if (!leafBefore(node, start)) copy(node);
@@ -125,39 +127,15 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
         }
         uint64_t v;
         PCCompareResults prefixResult;
-
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
+        bool needRestart = false;
+        v = node->readLockOrRestart(needRestart);
+        if (!needRestart)
           prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
-          parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              if (!leafBefore(node, start)) copy(node);
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
+        if (!needRestart) parentNode->readUnlockOrRestart(vp, needRestart);
+        if (!needRestart) node->readUnlockOrRestart(v, needRestart);
+        if (needRestart) {
+          scanAgain = true;
+          return;
         }
 
         switch (prefixResult) {
@@ -169,6 +147,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
             std::tuple<uint8_t, N *> children[256];
             uint32_t childrenCount = 0;
             v = N::getChildren(node, startLevel, 255, children, childrenCount);
+            if (node->isObsolete()) {  // the prefixes of its children may have changed
+              scanAgain = true;
+              return;
+            }
             for (uint32_t i = 0; i < childrenCount; ++i) {
               const uint8_t k = std::get<0>(children[i]);
               N *n = std::get<1>(children[i]);
@@ -177,7 +159,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               } else if (k > startLevel) {
                 copy(n);
               }
-              if (toContinue != 0) {
+              if (toContinue != 0 || scanAgain) {
                 break;
               }
             }
@@ -188,47 +170,25 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
         }
       };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd =
-      [&copy, &leafBefore, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
-                                                 const N *parentNode, uint64_t vp) {
+      [&copy, &leafBefore, &end, &toContinue, &scanAgain, &findEnd, this](
+          N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
           if (leafBefore(node, end)) copy(node);
           return;
         }
         uint64_t v;
         PCCompareResults prefixResult;
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
+        bool needRestart = false;
+        v = node->readLockOrRestart(needRestart);
+        if (!needRestart)
           prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
-          parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              if (leafBefore(node, end)) copy(node);
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
+        if (!needRestart) parentNode->readUnlockOrRestart(vp, needRestart);
+        if (!needRestart) node->readUnlockOrRestart(v, needRestart);
+        if (needRestart) {
+          scanAgain = true;
+          return;
         }
+
         switch (prefixResult) {
           case PCCompareResults::Smaller:
             copy(node);
@@ -238,6 +198,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
             std::tuple<uint8_t, N *> children[256];
             uint32_t childrenCount = 0;
             v = N::getChildren(node, 0, endLevel, children, childrenCount);
+            if (node->isObsolete()) {  // the prefixes of its children may have changed
+              scanAgain = true;
+              return;
+            }
             for (uint32_t i = 0; i < childrenCount; ++i) {
               const uint8_t k = std::get<0>(children[i]);
               N *n = std::get<1>(children[i]);
@@ -246,7 +210,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               } else if (k < endLevel) {
                 copy(n);
               }
-              if (toContinue != 0) {
+              if (toContinue != 0 || scanAgain) {
                 break;
               }
             }
@@ -261,6 +225,8 @@ restart:
   bool needRestart = false;
 
   resultsFound = 0;
+  toContinue = 0;
+  scanAgain = false;
 
   uint32_t level = 0;
   N *node = nullptr;
@@ -310,6 +276,7 @@ restart:
           std::tuple<uint8_t, N *> children[256];
           uint32_t childrenCount = 0;
           v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
+          if (node->isObsolete()) goto restart;
           for (uint32_t i = 0; i < childrenCount; ++i) {
             const uint8_t k = std::get<0>(children[i]);
             N *n = std::get<1>(children[i]);
@@ -320,7 +287,7 @@ restart:
             } else if (k == endLevel) {
               findEnd(n, k, level + 1, node, v);
             }
-            if (toContinue) {
+            if (toContinue || scanAgain) {
               break;
             }
           }
@@ -343,6 +310,7 @@ restart:
     }
     break;
   }
+  if (scanAgain) goto restart;
   if (toContinue != 0) {
     loadKey(toContinue, continueKey);
     return true;
@@ -354,6 +322,8 @@ restart:
 bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
                        std::size_t &resultsFound) const {
   TID toContinue = 0;
+  // set when a node on a boundary path of the scan has changed under it: the scan starts over
+  bool scanAgain = false;
   // the range starts at start; a leaf may sit above the level at which its key leaves the range
   auto leafBefore = [this](const N *leaf, const Key &bound) {
     Key key;
@@ -384,7 +354,7 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
     }
   };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &leafBefore, &start, &findStart, &toContinue, this](
+      [&copy, &leafBefore, &start, &findStart, &toContinue, &scanAgain, this](
           N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
           if (!leafBefore(node, start)) copy(node);
@@ -392,39 +362,15 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
         }
         uint64_t v;
         PCCompareResults prefixResult;
-
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
+        bool needRestart = false;
+        v = node->readLockOrRestart(needRestart);
+        if (!needRestart)
           prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
-          parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              if (!leafBefore(node, start)) copy(node);
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
+        if (!needRestart) parentNode->readUnlockOrRestart(vp, needRestart);
+        if (!needRestart) node->readUnlockOrRestart(v, needRestart);
+        if (needRestart) {
+          scanAgain = true;
+          return;
         }
 
         switch (prefixResult) {
@@ -436,6 +382,10 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
             std::tuple<uint8_t, N *> children[256];
             uint32_t childrenCount = 0;
             v = N::getChildren(node, startLevel, 255, children, childrenCount);
+            if (node->isObsolete()) {  // the prefixes of its children may have changed
+              scanAgain = true;
+              return;
+            }
             for (uint32_t i = 0; i < childrenCount; ++i) {
               const uint8_t k = std::get<0>(children[i]);
               N *n = std::get<1>(children[i]);
@@ -444,7 +394,7 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
               } else if (k > startLevel) {
                 copy(n);
               }
-              if (toContinue != 0) {
+              if (toContinue != 0 || scanAgain) {
                 break;
               }
             }
@@ -459,6 +409,8 @@ restart:
   bool needRestart = false;
 
   resultsFound = 0;
+  toContinue = 0;
+  scanAgain = false;
 
   uint32_t level = 0;
   N *node = nullptr;
@@ -493,6 +445,7 @@ restart:
         std::tuple<uint8_t, N *> children[256];
         uint32_t childrenCount = 0;
         v = N::getChildren(node, startLevel, 255, children, childrenCount);
+        if (node->isObsolete()) goto restart;
         for (uint32_t i = 0; i < childrenCount; ++i) {
           const uint8_t k = std::get<0>(children[i]);
           N *n = std::get<1>(children[i]);
@@ -501,7 +454,7 @@ restart:
           } else if (k > startLevel) {
             copy(n);
           }
-          if (toContinue) {
+          if (toContinue || scanAgain) {
             break;
           }
         }
@@ -510,6 +463,7 @@ restart:
     }
     break;
   }
+  if (scanAgain) goto restart;
 
   return false;
 }
-- 
2.43.0


From 1b836773836b9d22e463fa594db13a8935a03264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 07/45] fix: OMCS try_lock refuses the version of an
 opportunistic read, it would displace the queued writers

---
 OptiQL/latches/OMCSImpl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/OptiQL/latches/OMCSImpl.h b/OptiQL/latches/OMCSImpl.h
index 3c32147..f4065b1 100644
--- a/OptiQL/latches/OMCSImpl.h
+++ b/OptiQL/latches/OMCSImpl.h
@@ -207,7 +207,8 @@ class OMCSLock {
   }
 
   bool try_lock(uint64_t version) {
-    if (!validate_read(version)) {
+    // An opportunistic read's version names a queue that writers wait in: there is no latch to take
+    if (OMCSLock::has_locked_bit(version) || !validate_read(version)) {
       return false;
     }
 
@@ -347,7 +348,8 @@ class OMCSLock {
   }
 
   inline bool try_lock(OMCSQNode *qnode, uint64_t version) {
-    if (!validate_read(version)) {
+    // An opportunistic read's version names a queue that writers wait in: there is no latch to take
+    if (OMCSLock::has_locked_bit(version) || !validate_read(version)) {
       return false;
     }
 
-- 
2.43.0


From 25a8553f0c964bae56a09f2aeaf67d2d790bd803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 08/45] fix: stringbag of the maximum capacity refuses a string
 that would overflow its fill count

---
 MassTree/stringbag.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/stringbag.hh b/MassTree/stringbag.hh
index 701de14..c176c55 100644
--- a/MassTree/stringbag.hh
+++ b/MassTree/stringbag.hh
@@ -124,7 +124,8 @@ class stringbag {
         if (mylen >= (unsigned) len)
             pos = info_[p].pos;
         else if (size_ + (unsigned) std::max(len, slice_type::size)
-                   <= capacity()) {
+                   <= capacity()
+                 && size_ + (unsigned) len < max_size()) {
             pos = size_;
             size_ += len;
         } else
-- 
2.43.0


From 9b1124e64171b9b14192d709d1a1cdd8a05fb98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 09/45] fix: JSON parser accepts lower-case hexadecimal digits
 in the second half of a surrogate pair

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 29ddfbc..3ee2cee 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1054,7 +1054,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                     ch2 = 16 * ch2 + first[i] - '0';
                 else if (in_range(first[i], 'A', 'F' + 1))
                     ch2 = 16 * ch2 + first[i] - 'A' + 10;
-                else if (in_range(first[i], 'A', 'F' + 1))
+                else if (in_range(first[i], 'a', 'f' + 1))
                     ch2 = 16 * ch2 + first[i] - 'a' + 10;
                 else
                     return error_at(&first[i]);
-- 
2.43.0


From ad348902e53c7e22bf4a24a0bc9059e39b2527b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 10/45] fix: JSON parser does not look at the byte after a
 chunk that ends in a multi-byte lead

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 3ee2cee..29a6840 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -928,7 +928,7 @@ Json::streaming_parser::consume_string(const uint8_t* first,
             int want = 2 + (*first >= 0xE0) + (*first >= 0xF0);
             int n = last - first < want ? last - first : want;
             if ((n > 1 && unlikely(!in_range(first[1], 0x80, 0xC0)))
-                || (*first >= 0xE0
+                || (n > 1 && *first >= 0xE0
                     && ((*first == 0xE0 && first[1] < 0xA0) /* overlong */
                         || (*first == 0xED && first[1] >= 0xA0) /* surrogate */
                         || (*first == 0xF0 && first[1] < 0x90) /* overlong */
-- 
2.43.0


From b91e0a7929e4e9ad11a8c5e1e59e95e926cfc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 11/45] fix: JSON parser replaces the earlier value of a
 repeated object key, it was pushed into an array

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 29a6840..a28dae9 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -862,7 +862,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         value: {
             Json* jp = current();
-            if (state_ != st_initial && jp->is_a()) {
+            if (state_ != st_initial && state_ != st_object_value && jp->is_a()) {
                 jp->push_back(std::move(j));
                 jp = &jp->back();
             } else
-- 
2.43.0


From 3a25df6e5f7fcb2f3dc4d620a6979d5cdbd94b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 12/45] fix: StringAccum encodes U+0800..U+7FFF as three bytes
 of UTF-8

---
 MassTree/straccum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/straccum.cc b/MassTree/straccum.cc
index f82c153..3027765 100644
--- a/MassTree/straccum.cc
+++ b/MassTree/straccum.cc
@@ -203,7 +203,7 @@ StringAccum::hard_append_cstr(const char *cstr)
 bool
 StringAccum::append_utf8_hard(int ch)
 {
-    if (ch < 0x8000) {
+    if (ch < 0x800) {
         append(static_cast<char>(0xC0 | (ch >> 6)));
         goto char1;
     } else if (ch < 0x10000) {
-- 
2.43.0


From 6788da71ffaa50a9852fff87d7c8fa2070010939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 13/45] fix: Json += and -= with a Json operand use the
 operand's number

---
 MassTree/json.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 9238ba3..9dbf287 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -3093,18 +3093,18 @@ inline Json& Json::operator-=(double x) {
 }
 inline Json& Json::operator+=(const Json& x) {
     if (x.is_unsigned())
-        add(u_.u.x);
+        add(x.u_.u.x);
     else if (x.is_int())
-        add(u_.i.x);
+        add(x.u_.i.x);
     else if (!x.is_null())
         add(x.as_d());
     return *this;
 }
 inline Json& Json::operator-=(const Json& x) {
     if (x.is_unsigned())
-        subtract(u_.u.x);
+        subtract(x.u_.u.x);
     else if (x.is_int())
-        subtract(u_.i.x);
+        subtract(x.u_.i.x);
     else if (!x.is_null())
         subtract(x.as_d());
     return *this;
-- 
2.43.0


From 1fd65fe7d89ef0226643ea1b779a8e9c056278d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 14/45] fix: erasing a key from an empty Json object does not
 look into a hash table it does not have

---
 MassTree/json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index a28dae9..a521e09 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From fdde56af5011c9848393c5a59c58662447c6f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 15/45] fix: Json::empty and truthy treat a string without a
 memo as a string, its characters were read as an object header

---
 MassTree/json.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 9dbf287..a06522d 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -1661,7 +1661,7 @@ inline Json Json::make_string(const char *s, int len) {
 
 /** @brief Test if this Json is truthy. */
 inline bool Json::truthy() const {
-    return (u_.x.x ? u_.x.type >= 0 || u_.str.length
+    return (u_.x.x ? u_.x.type > 0 || u_.str.length
             : (unsigned) (u_.x.type - 1) < (unsigned) (j_int - 1));
 }
 /** @brief Test if this Json is falsy. */
@@ -1746,7 +1746,7 @@ inline bool Json::is_primitive() const {
     object. */
 inline bool Json::empty() const {
     return unsigned(u_.x.type) < unsigned(j_int)
-        && (!u_.x.x || u_.x.x->size == 0);
+        && (!u_.x.x || (u_.x.type != j_null && u_.x.x->size == 0));
 }
 /** @brief Return the number of elements in this complex Json.
     @pre is_array() || is_object() || is_null() */
-- 
2.43.0


From b729668885c16dfcff62897b4459a87df956a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 16/45] fix: JSON parser refuses a number without digits before
 its fraction or exponent

---
 MassTree/json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index a521e09..f5d1d25 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1131,8 +1131,10 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         case 1:
             while (first != last && in_range(*first, '0', '9' + 1))
                 ++first;
-        } else
+        } else {
             position = 2;
+            break;
+        }
         /* fallthru */
     case 3:
         if (first != last && *first == '.') {
-- 
2.43.0


From bcae22667e68d9be52bafb642fc0891dac4c81e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 17/45] fix: MessagePack parser refuses lengths of 2^31 and
 more, they were taken as negative and moved it backwards

---
 MassTree/msgpack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MassTree/msgpack.cc b/MassTree/msgpack.cc
index 4b8859b..46da7c3 100644
--- a/MassTree/msgpack.cc
+++ b/MassTree/msgpack.cc
@@ -69,6 +69,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixmap;
             ++first;
         map:
+            if (n < 0)
+                goto error;
             if (jx->is_o())
                 jx->clear();
             else
@@ -77,6 +79,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixarray;
             ++first;
         array:
+            if (n < 0)
+                goto error;
             if (!jx->is_a())
                 *jx = Json::make_array_reserve(n);
             jx->resize(n);
@@ -84,6 +88,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixstr;
             ++first;
         raw:
+            if (n < 0) // longer than any String can be
+                goto error;
             if (last - first < n) {
                 str_ = String(first, last);
                 stack_.push_back(selem{0, n});
-- 
2.43.0


From 0fc30c241f61d818f163cfc9e3df813519eee92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 18/45] fix: MessagePack skip_primitives skips 64-bit integers
 and doubles

---
 MassTree/msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index 8b84e34..c04e911 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -475,6 +475,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From 65f5276831cf509c0968a6ed4a9b18ceab7c3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 19/45] fix: MessagePack parser reads the elements of a vector

---
 MassTree/msgpack.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index c04e911..7380735 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -613,7 +613,7 @@ parser& parser::operator>>(::std::vector<T>& x) {
     }
     for (; sz != 0; --sz) {
         x.push_back(T());
-        parse(x.back());
+        *this >> x.back();
     }
     return *this;
 }
-- 
2.43.0


From ecb4d0eef0869f408202d9f01db5d4ff894a5465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 20/45] fix: a key copied from a wormhole record reference has
 no value

---
 wormhole/kv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wormhole/kv.c b/wormhole/kv.c
index a1720e8..ffedfbf 100644
--- a/wormhole/kv.c
+++ b/wormhole/kv.c
@@ -736,6 +736,7 @@ kvref_dup2_key(struct kvref * const ref, struct kv * const to)
 
   *new = ref->hdr;
   memcpy(new->kv, ref->kptr, new->klen);
+  new->vlen = 0;
   return new;
 }
 
-- 
2.43.0


From c17aad0540655f3401edaf271509a2cdc5114fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 21/45] fix: strtoks writes its final NULL within the token
 array

---
 wormhole/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8c67e10..d5cfac3 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2784,7 +2784,7 @@ strtoks(const char * const str, const char * const delim)
   char * tok = strtok_r(buf, delim, &saveptr);
   size_t ntoks = 0;
   while (tok) {
-    if (ntoks >= nptr_alloc) {
+    if ((ntoks + 1) >= nptr_alloc) { // and the final NULL
       nptr_alloc += 32;
       char ** const r = realloc(tokens, sizeof(tokens[0]) * nptr_alloc);
       if (r == NULL)
-- 
2.43.0


From 9f6c50a18e741c65706004c87e08957b4a6c1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:23 +0000
Subject: [PATCH 22/45] wormhole: WH_SMALL_NODES define for small nodes and
 tables

---
 wormhole/wh.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ffb1da6..ebeac09 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -14,6 +14,7 @@
 // }}} headers
 
 // def {{{
+#ifndef WH_SMALL_NODES
 #define WH_HMAPINIT_SIZE ((1u << 12)) // 10: 16KB/64KB  12: 64KB/256KB  14: 256KB/1MB
 #define WH_SLABMETA_SIZE ((1lu << 21)) // 2MB
 
@@ -24,6 +25,12 @@
 #endif
 
 #define WH_KPN ((128u)) // keys per node; power of 2
+#else // small nodes and tables: every structural change within reach of a checker
+#define WH_HMAPINIT_SIZE ((1u << 2))
+#define WH_SLABMETA_SIZE ((1lu << 12))
+#define WH_SLABLEAF_SIZE ((1lu << 12))
+#define WH_KPN ((8u))
+#endif
 #define WH_HDIV (((1u << 16)) / WH_KPN)
 #define WH_MID ((WH_KPN >> 1)) // ideal cut point for split, the closer the better
 #define WH_BKT_NR ((8))
@@ -64,6 +71,9 @@ struct wormleaf {
 
   struct entry13 hs[WH_KPN]; // sorted by hashes
   u8 ss[WH_KPN]; // sorted by keys
+#ifdef WH_SMALL_NODES
+  u8 pad[56]; // leaves are 64-byte aligned
+#endif
 };
 
 struct wormslot { u16 t[WH_BKT_NR]; };
-- 
2.43.0


From 088a77508aa34fb24715dad05dd3dda7834ef008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:23 +0000
Subject: [PATCH 23/45] fix: wormhole: an unsafe range deletion whose end
 precedes its start deletes nothing

---
 wormhole/wh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ebeac09..9b3f783 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -3057,6 +3057,9 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && (kref_compare(end, start) <= 0)) // do nothing if end <= start
+    return 0;
+
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0


From b807f07352fb251ce57d961125333352494b353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 24/45] fix: wormhole: a quiescent-state waiter tolerates a
 reference being registered

---
 wormhole/lib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index d5cfac3..00ae706 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2866,6 +2866,10 @@ qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
   memset(q, 0, sizeof(*q));
+  // a waiter can see a slot's bit before qsbr_register() stores the ptr
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++)
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      q->shards[i].ptrs[j] = (u64)(&q->target);
   return q;
 }
 
-- 
2.43.0


From 247c8708f2ec0507e8803b40a7c65189075af306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:53 +0000
Subject: [PATCH 25/45] fix: a Masstree scan takes the suffix by the key length
 it has read, not one a writer may since have changed

---
 MassTree/masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/masstree_scan.hh b/MassTree/masstree_scan.hh
index bccf7b6..b1351db 100644
--- a/MassTree/masstree_scan.hh
+++ b/MassTree/masstree_scan.hh
@@ -202,7 +202,7 @@ int scanstackelt<P>::find_initial(H& helper, key_type& ka, bool emit_equal,
         entry = n_->lv_[kx.p];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx)) {
-            suffix = n_->ksuf(kx.p);
+            suffix = n_->ksuf(kx.p, keylenx);
             memcpy(suffixbuf, suffix.s, suffix.len);
             suffix.s = suffixbuf;
         }
@@ -267,7 +267,7 @@ int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
         entry = n_->lv_[kp];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx))
-            keylen = ka.assign_store_suffix(n_->ksuf(kp));
+            keylen = ka.assign_store_suffix(n_->ksuf(kp, keylenx));
 
         if (n_->has_changed(v_))
             goto changed;
-- 
2.43.0


From 776da3c5f8a24b96c70f63f4a45f6111023af2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:32 +0000
Subject: [PATCH 26/45] fix: a HOT lookup in an empty trie finds nothing
 instead of following a null root

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index ac38163..3e9555c 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -64,6 +64,9 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 	uint8_t const* byteKey = idx::contenthelpers::interpretAsByteArray(fixedSizeKey);
 
 	HOTRowexChildPointer current =  mRoot;
+	if(!current.isUsed()) {
+		return {};
+	}
 	while(!current.isLeaf()) {
 		current = *(current.search(byteKey));
 	}
-- 
2.43.0


From f5b2fb7d65ca60e4ced9ce9391c1dbb804a96b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:32 +0000
Subject: [PATCH 27/45] fix: a HOT upsert of the second key reports that the
 key is new

---
 HOT/include/hot/rowex/HOTRowex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 3e9555c..2c12c29 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -167,7 +167,7 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				upsertCompleted = mRoot.compareAndSwap(currentRoot, HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
 				upsertResult = { true, existingValue };
 			} else {
-				insertGuarded(newValue);
+				upsertCompleted = insertGuarded(newValue);
 			}
 		} else {
 			HOTRowexChildPointer newRootPointer(idx::contenthelpers::valueToTid(newValue));
-- 
2.43.0


From c9efba636c17ea8a93b03d6c19f7c154171a2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:55 +0000
Subject: [PATCH 28/45] fix: HOT bound searches and scans in a trie of one
 entry

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 1718c7a..b0d51cf 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -17,6 +17,7 @@
 #include "hot/rowex/HOTRowexIteratorEndToken.hpp"
 #include "hot/rowex/HOTRowexIteratorStackState.hpp"
 #include "hot/rowex/HOTRowexIteratorStackEntry.hpp"
+#include <idx/contenthelpers/KeyComparator.hpp>
 #include "hot/rowex/EpochBasedMemoryReclamationStrategy.hpp"
 #include "hot/rowex/MemoryGuard.hpp"
 
@@ -57,11 +58,17 @@ public:
 
 	static inline HOTRowexSynchronizedIterator getBounded(HOTRowexChildPointer const * rootPointer, KeyType const & searchKey, bool isLowerBound, EpochBasedMemoryReclamationStrategy * const & memoryReclamationStrategy) {
 		MemoryGuard guard(memoryReclamationStrategy);
-		HOTRowexChildPointer const & currentRoot = *rootPointer;
+		HOTRowexChildPointer const currentRoot = *rootPointer;
+
+		if(currentRoot.isLeaf()) {
+			KeyType const & onlyKey = extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid()));
+			bool isInBound = idx::contenthelpers::contentEquals(searchKey, onlyKey)
+				? isLowerBound
+				: typename idx::contenthelpers::KeyComparator<KeyType>::type()(searchKey, onlyKey);
+			return isInBound ? HOTRowexSynchronizedIterator(rootPointer, currentRoot, memoryReclamationStrategy, guard) : END_ITERATOR;
+		}
 
-		return (currentRoot.isLeaf()
-				&& idx::contenthelpers::contentEquals(searchKey, extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid())))
-			   ) || currentRoot.isAValidNode()
+		return currentRoot.isAValidNode()
 			   ? HOTRowexSynchronizedIterator(rootPointer, currentRoot, searchKey, isLowerBound, memoryReclamationStrategy, guard)
 			   : END_ITERATOR;
 	}
-- 
2.43.0


From 37cf204175d91e75e256c3e5ed4e8f37a80cea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 29/45] fix: HOT pads keys shorter than eight bytes instead of
 reading past them

---
 HOT/include/idx/contenthelpers/KeyUtilities.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HOT/include/idx/contenthelpers/KeyUtilities.hpp b/HOT/include/idx/contenthelpers/KeyUtilities.hpp
index aeca380..2bf1f18 100644
--- a/HOT/include/idx/contenthelpers/KeyUtilities.hpp
+++ b/HOT/include/idx/contenthelpers/KeyUtilities.hpp
@@ -6,6 +6,7 @@
 #include <array>
 #include <cstdint>
 #include <cstring>
+#include <type_traits>
 
 namespace idx { namespace contenthelpers {
 
@@ -61,7 +62,10 @@ template<> inline size_t getKeyLength<char const *>(char const * const & key) {
 }
 
 template<typename KeyType> inline __attribute__((always_inline)) auto toFixSizedKey(KeyType const & key) {
-	return key;
+	// partial keys are extracted from eight bytes at a time: a shorter key is padded with zeros
+	std::conditional_t<(sizeof(KeyType) < sizeof(uint64_t)), uint64_t, KeyType> fixedSizeKey {};
+	std::memcpy(&fixedSizeKey, &key, sizeof(KeyType));
+	return fixedSizeKey;
 }
 
 /**
-- 
2.43.0


From 7dce61b346d0947c4cf44cf88cdff61a12477abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:15 +0000
Subject: [PATCH 30/45] fix: HOT upsert of an existing key checks the leaf
 again once its node is locked

---
 HOT/include/hot/rowex/HOTRowex.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 2c12c29..fe5aeb6 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -152,12 +152,15 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 			} else {
 				InsertStackEntryType &leafEntry = *insertStack.mLeafEntry;
 				InsertStackEntryType* parentEntry = insertStack.mLeafEntry - 1;
-				if(parentEntry->tryLock()) { //Check for consistency
-					ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
-						leafEntry.getChildPointer().getTid());
-					leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
-					upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
-					upsertCompleted = true;
+				if(parentEntry->tryLock()) {
+					//the leaf might have been replaced or pushed down between reading it and acquiring the lock
+					if(insertStack.isConsistent(parentEntry, 1)) {
+						ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
+							leafEntry.getChildPointer().getTid());
+						leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
+						upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
+						upsertCompleted = true;
+					}
 					parentEntry->unlock();
 				}
 			}
-- 
2.43.0


From 6c01c4aa0b596a6392c3cfdc1014edbea6ef1bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 31/45] fix: HOT epoch reclamation announces the epoch that is
 current, so that nodes in use are not freed

---
 .../hot/rowex/EpochBasedMemoryReclamationStrategy.hpp       | 6 ++++++
 .../ThreadSpecificEpochBasedReclamationInformation.hpp      | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
index 162e3d2..267df6d 100644
--- a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
+++ b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
@@ -35,6 +35,12 @@ public:
 		ThreadSpecificEpochBasedReclamationInformation & currentMemoryInformation = mThreadSpecificInformations.local();
 		uint32_t currentEpoch = mCurrentEpoch.load(std::memory_order_acquire);
 		currentMemoryInformation.enter(currentEpoch);
+		//the epoch might have been advanced before this thread announced it, in this case the current one must be announced
+		for(uint32_t latestEpoch = mCurrentEpoch.load(); latestEpoch != currentEpoch; latestEpoch = mCurrentEpoch.load()) {
+			currentMemoryInformation.leave();
+			currentEpoch = latestEpoch;
+			currentMemoryInformation.enter(currentEpoch);
+		}
 		if(currentMemoryInformation.doesThreadWantToAdvanceEpoch() && canAdvance(currentEpoch)) {
 			mCurrentEpoch.compare_exchange_strong(currentEpoch, NEXT_EPOCH[currentEpoch]);
 		}
diff --git a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
index da04228..195c8f7 100644
--- a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
+++ b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
@@ -50,7 +50,8 @@ public:
 			mThreadWantsToAdvance = false;
 			mPreviouslyAccessedEpoch = newEpoch;
 		}
-		mLocalEpoch.store(newEpoch, std::memory_order_release);
+		//has to be visible to other threads before the global epoch is read again
+		mLocalEpoch.store(newEpoch, std::memory_order_seq_cst);
 	}
 
 	void leave()  {
-- 
2.43.0


From ee2f2a9bdede04de8f625d2170a95a89e19fca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 32/45] fix: tlx round_down_to_power_of_two for arguments in
 the upper half of the type

---
 STX/tlx/tlx/math/round_to_power_of_two.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/math/round_to_power_of_two.hpp b/STX/tlx/tlx/math/round_to_power_of_two.hpp
index 6e59711..2f1dda0 100644
--- a/STX/tlx/tlx/math/round_to_power_of_two.hpp
+++ b/STX/tlx/tlx/math/round_to_power_of_two.hpp
@@ -68,35 +68,44 @@ unsigned long long round_up_to_power_of_two(unsigned long long i) {
 /******************************************************************************/
 // round_down_to_power_of_two()
 
+//! does what it says: round down to next power of two
+template <typename Integral>
+static inline Integral round_down_to_power_of_two_template(Integral n) {
+    for (size_t k = 1; k != 8 * sizeof(n); k <<= 1) {
+        n |= n >> k;
+    }
+    return n - (n >> 1);
+}
+
 //! does what it says: round down to next power of two
 static inline int round_down_to_power_of_two(int i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline unsigned int round_down_to_power_of_two(unsigned int i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline long round_down_to_power_of_two(long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline unsigned long round_down_to_power_of_two(unsigned long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline long long round_down_to_power_of_two(long long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline
 unsigned long long round_down_to_power_of_two(unsigned long long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! \}
-- 
2.43.0


From ea9bceb6d82d2354536d1134ade9cc2283246fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 33/45] fix: tlx compare_icase orders a prefix before the
 longer string, as strcmp does

---
 STX/tlx/tlx/string/compare_icase.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/STX/tlx/tlx/string/compare_icase.cpp b/STX/tlx/tlx/string/compare_icase.cpp
index 881bcd5..2dce6ca 100644
--- a/STX/tlx/tlx/string/compare_icase.cpp
+++ b/STX/tlx/tlx/string/compare_icase.cpp
@@ -27,8 +27,8 @@ int compare_icase(const char* a, const char* b) {
         else return +1;
     }
 
-    if (*a == 0 && *b != 0) return +1;
-    else if (*a != 0 && *b == 0) return -1;
+    if (*a == 0 && *b != 0) return -1;
+    else if (*a != 0 && *b == 0) return +1;
     else return 0;
 }
 
@@ -46,8 +46,8 @@ int compare_icase(const char* a, const std::string& b) {
         else return +1;
     }
 
-    if (*a == 0 && bi != b.end()) return +1;
-    else if (*a != 0 && bi == b.end()) return -1;
+    if (*a == 0 && bi != b.end()) return -1;
+    else if (*a != 0 && bi == b.end()) return +1;
     else return 0;
 }
 
@@ -64,8 +64,8 @@ int compare_icase(const std::string& a, const char* b) {
         else return +1;
     }
 
-    if (ai == a.end() && *b != 0) return +1;
-    else if (ai != a.end() && *b == 0) return -1;
+    if (ai == a.end() && *b != 0) return -1;
+    else if (ai != a.end() && *b == 0) return +1;
     else return 0;
 }
 
@@ -83,8 +83,8 @@ int compare_icase(const std::string& a, const std::string& b) {
         else return +1;
     }
 
-    if (ai == a.end() && bi != b.end()) return +1;
-    else if (ai != a.end() && bi == b.end()) return -1;
+    if (ai == a.end() && bi != b.end()) return -1;
+    else if (ai != a.end() && bi == b.end()) return +1;
     else return 0;
 }
 
-- 
2.43.0


From ce854ec5f22d1c570467ceabbb7488bd2b427d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 34/45] fix: tlx less_icase_desc is the reverse order, not the
 negation of the order

---
 STX/tlx/tlx/string/less_icase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/less_icase.hpp b/STX/tlx/tlx/string/less_icase.hpp
index 64d4d9b..25ef147 100644
--- a/STX/tlx/tlx/string/less_icase.hpp
+++ b/STX/tlx/tlx/string/less_icase.hpp
@@ -47,7 +47,7 @@ struct less_icase_asc {
 //! std::map, etc.
 struct less_icase_desc {
     inline bool operator () (const std::string& a, const std::string& b) const {
-        return !less_icase(a, b);
+        return less_icase(b, a);
     }
 };
 
-- 
2.43.0


From 49bb7e9df116f289ed7b670a54d38d231021141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 35/45] fix: tlx split at a string finds a separator at the end
 and does not overlap separators

---
 STX/tlx/tlx/string/split.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/string/split.cpp b/STX/tlx/tlx/string/split.cpp
index a8edf88..11023ce 100644
--- a/STX/tlx/tlx/string/split.cpp
+++ b/STX/tlx/tlx/string/split.cpp
@@ -124,7 +124,7 @@ std::vector<std::string>& split(
 
     std::string::const_iterator it = str.begin(), last = it;
 
-    for ( ; it + sep_size < str.end(); ++it)
+    while (static_cast<size_t>(str.end() - it) >= sep_size)
     {
         if (std::equal(sep, sep + sep_size, it))
         {
@@ -135,7 +135,11 @@ std::vector<std::string>& split(
             }
 
             into->emplace_back(last, it);
-            last = it + sep_size;
+            it += sep_size;
+            last = it;
+        }
+        else {
+            ++it;
         }
     }
 
-- 
2.43.0


From febd936c18aed4a25c931203add843c411ea390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 36/45] fix: tlx equal_icase of a string and a C string is true
 when both end, not when the C string goes on

---
 STX/tlx/tlx/string/equal_icase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/equal_icase.cpp b/STX/tlx/tlx/string/equal_icase.cpp
index a45f44c..a9db162 100644
--- a/STX/tlx/tlx/string/equal_icase.cpp
+++ b/STX/tlx/tlx/string/equal_icase.cpp
@@ -38,7 +38,7 @@ bool equal_icase(const std::string& a, const char* b) {
     while (ai != a.end() && *b != 0 && to_lower(*ai) == to_lower(*b))
         ++ai, ++b;
 
-    return ai == a.end() && *b != 0;
+    return ai == a.end() && *b == 0;
 }
 
 bool equal_icase(const std::string& a, const std::string& b) {
-- 
2.43.0


From 7b38b1812b9da86ecf9590b94e0d1591655dc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:04 +0000
Subject: [PATCH 37/45] fix: tlx addressable heap forgets the keys it held
 before build_heap

---
 STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
index 7329594..302b917 100644
--- a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
+++ b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
@@ -352,6 +352,7 @@ private:
             }
         }
         // initialize handles_ vector
+        std::fill(handles_.begin(), handles_.end(), not_present());
         handles_.resize(std::max(handles_.size(), static_cast<size_t>(max_key) + 1), not_present());
         for (size_t i = 0; i < heap_.size(); ++i)
             handles_[heap_[i]] = i;
-- 
2.43.0


From d26a39633fe31196c3f55a87fac83fea8a5ecaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:04 +0000
Subject: [PATCH 38/45] fix: tlx RingBuffer::pop_back destroys the last
 element, not the first

---
 STX/tlx/tlx/container/ring_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 7eec7c1..5b8e6d2 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -219,8 +219,8 @@ public:
     //! remove element at the end
     void pop_back() {
         assert(!empty());
-        alloc_traits::destroy(alloc_, std::addressof(data_[begin_]));
         --end_ &= mask_;
+        alloc_traits::destroy(alloc_, std::addressof(data_[end_]));
     }
 
     //! reset buffer contents
-- 
2.43.0


From cf9d5ae61adfb9db5196609a95f1f28d6cbdf11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:04 +0000
Subject: [PATCH 39/45] fix: tlx RingBuffer::deallocate leaves a buffer that
 can be allocated or assigned again

---
 STX/tlx/tlx/container/ring_buffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 5b8e6d2..764760f 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -155,6 +155,8 @@ public:
             clear();
             alloc_.deallocate(data_, capacity_);
             data_ = nullptr;
+            capacity_ = 0;
+            begin_ = end_ = 0;
         }
     }
 
-- 
2.43.0


From b986377935cb853d0b9e695724d0de9bd5aededf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:04 +0000
Subject: [PATCH 40/45] fix: tlx SplayTree::exists on an empty tree

---
 STX/tlx/tlx/container/splay_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index a3fb8a3..fc06bfb 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -276,6 +276,7 @@ public:
 
     //! check if key exists
     bool exists(const Key& k) {
+        if (root_ == nullptr) return false;
         root_ = splay(k, root_, cmp_);
         return !cmp_(root_->key, k) && !cmp_(k, root_->key);
     }
-- 
2.43.0


From 841638ee8ffb3c29757b01f24b0d489e84bf899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 41/45] fix: tlx SplayTree::clear leaves an empty tree, not one
 of freed nodes

---
 STX/tlx/tlx/container/splay_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index fc06bfb..05c014a 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -272,6 +272,7 @@ public:
     //! free all nodes
     void clear() {
         splay_traverse_postorder([this](Node* n) { delete_node(n); }, root_);
+        root_ = nullptr;
     }
 
     //! check if key exists
-- 
2.43.0


From b71b2948725124d08331a834a897a502c7889800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 42/45] fix: tlx splay_erase keeps the duplicates of the erased
 key

---
 STX/tlx/tlx/container/splay_tree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index 05c014a..41e62a8 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -185,7 +185,10 @@ Tree * splay_erase(const Key& k, Tree*& t, const Compare& cmp) {
         }
         else {
             Tree* x = splay(k, t->left, cmp);
-            x->right = t->right;
+            // with duplicates, x can have further nodes equal to k on its right
+            Tree* y = x;
+            while (y->right != nullptr) y = y->right;
+            y->right = t->right;
             t = x;
         }
         return r;
-- 
2.43.0


From 445405f0ade35a4ceadaf2f7f18ea0c8abd8dfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:15 +0000
Subject: [PATCH 43/45] fix: tlx RadixHeap computes the bucket of keys narrower
 than int

---
 STX/tlx/tlx/container/radix_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 05ba7f6..5189c9a 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -288,7 +288,7 @@ public:
         const auto diff = x ^ insertion_limit;
         if (!diff) return 0;
 
-        const auto diff_in_bit = (8 * sizeof(Int) - 1) - clz(diff);
+        const auto diff_in_bit = (8 * sizeof(diff) - 1) - clz(diff);
 
         const auto row = diff_in_bit / radix_bits;
         const auto bucket_in_row = ((x >> (radix_bits * row)) & mask) - row;
-- 
2.43.0


From c99f42c54d40b4c7ed3e12cc99cd431132d6a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:36 +0000
Subject: [PATCH 44/45] fix: tlx RadixHeap assertion held the greatest key
 against an empty bucket

---
 STX/tlx/tlx/container/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 5189c9a..649dc44 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -621,6 +621,7 @@ protected:
             const ranked_key_type key = Encoder::rank_of_int(key_extract_(x));
             assert(key >= mins_[first_non_empty]);
             assert(first_non_empty == mins_.size() - 1
+                   || buckets_data_[first_non_empty + 1].empty()
                    || key < mins_[first_non_empty + 1]);
             const auto idx = bucket_map_(key, insertion_limit_);
             assert(idx < first_non_empty);
-- 
2.43.0


From 11b22f5df7cd7f6859bc8a3ac7e7abdc5a94ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:43 +0000
Subject: [PATCH 45/45] fix: tlx multisequence_partition takes equal elements
 from the sequences with smaller number

---
 STX/tlx/tlx/algorithm/multisequence_partition.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/algorithm/multisequence_partition.hpp b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
index 5d362b0..6a2087f 100644
--- a/STX/tlx/tlx/algorithm/multisequence_partition.hpp
+++ b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
@@ -206,17 +206,24 @@ void multisequence_partition(
         n /= 2;
 
         const value_type* lmax = nullptr; // impossible to avoid the warning?
+        diff_type lmax_seq = -1;
         for (diff_type i = 0; i < m; ++i)
         {
             if (a[i] > 0)
             {
                 if (!lmax)
+                {
                     lmax = &(begin_seqs[i].first[a[i] - 1]);
+                    lmax_seq = i;
+                }
                 else
                 {
                     // max, favor rear sequences
                     if (!comp(begin_seqs[i].first[a[i] - 1], *lmax))
+                    {
                         lmax = &(begin_seqs[i].first[a[i] - 1]);
+                        lmax_seq = i;
+                    }
                 }
             }
         }
@@ -225,7 +232,8 @@ void multisequence_partition(
         {
             diff_type middle = (b[i] + a[i]) / 2;
             if (lmax && middle < seqlen[i] &&
-                comp(begin_seqs[i].first[middle], *lmax))
+                lcomp(SamplePair(begin_seqs[i].first[middle], i),
+                      SamplePair(*lmax, lmax_seq)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0

