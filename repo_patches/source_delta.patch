From 211b93d8006efc98b8156a57328ef83363363fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 001/102] BTreeOLC: guarded page size override
 (INDEXRESEARCH_VERIF_PAGE_SIZE) for verification builds

---
 BTreeOLC/BTreeOLC.h              | 4 ++++
 BTreeOLC/BTreeOLC_child_layout.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..bd8c76a 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -10,7 +10,11 @@ namespace btreeolc {
 
 enum class PageType : uint8_t { BTreeInner=1, BTreeLeaf=2 };
 
+#ifdef INDEXRESEARCH_VERIF_PAGE_SIZE
+static const uint64_t pageSize=INDEXRESEARCH_VERIF_PAGE_SIZE;
+#else
 static const uint64_t pageSize=4*1024;
+#endif
 
 struct OptLock {
   std::atomic<uint64_t> typeVersionLockObsolete{0b100};
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..1d4870a 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -20,7 +20,11 @@ namespace btreeolc {
 
 enum class PageType : uint8_t { BTreeInner=1, BTreeLeaf=2 };
 
+#ifdef INDEXRESEARCH_VERIF_PAGE_SIZE
+static const uint64_t pageSize=INDEXRESEARCH_VERIF_PAGE_SIZE;
+#else
 static const uint64_t pageSize=4*1024;
+#endif
 
 struct OptLock {
   std::atomic<uint64_t> typeVersionLockObsolete{0b100};
-- 
2.43.0


From 18dd8ba68da3024b1fe27c0e33fe4e8ee7aa5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 002/102] fix: BTreeOLC lookup returned an uninitialised result
 for absent keys

---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index bd8c76a..7070f9e 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -395,7 +395,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 1d4870a..f4b1bc2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -394,7 +394,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From 80b25a33b764ba384b1c2206ec133dcf60efbad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 003/102] ARTOLC: guarded reclamation threshold for
 verification builds

---
 ARTOLC/Tree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ARTOLC/Tree.h b/ARTOLC/Tree.h
index c104314..4832807 100644
--- a/ARTOLC/Tree.h
+++ b/ARTOLC/Tree.h
@@ -21,7 +21,11 @@ namespace ART_OLC {
 
         LoadKeyFunction loadKey;
 
+#ifdef INDEXRESEARCH_VERIF_GC_THRESHOLD // guarded: verification builds reclaim as early as possible
+        Epoche epoche{INDEXRESEARCH_VERIF_GC_THRESHOLD};
+#else
         Epoche epoche{256};
+#endif
 
     public:
         enum class CheckPrefixResult : uint8_t {
-- 
2.43.0


From 93a9c936a64730b9a49baa6b268a6a0a60ad1263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 004/102] fix: ARTOLC range lookup left the range, missed
 entries, crashed or never returned

---
 ARTOLC/N.cpp    |  10 +-
 ARTOLC/N.h      |  10 +-
 ARTOLC/N16.cpp  |   7 +-
 ARTOLC/N256.cpp |   7 +-
 ARTOLC/N4.cpp   |   7 +-
 ARTOLC/N48.cpp  |   7 +-
 ARTOLC/Tree.cpp | 302 ++++++++++--------------------------------------
 ARTOLC/Tree.h   |   7 --
 8 files changed, 82 insertions(+), 275 deletions(-)

diff --git a/ARTOLC/N.cpp b/ARTOLC/N.cpp
index 376e965..9767e50 100644
--- a/ARTOLC/N.cpp
+++ b/ARTOLC/N.cpp
@@ -403,23 +403,23 @@ namespace ART_OLC {
     }
 
     uint64_t N::getChildren(const N *node, uint8_t start, uint8_t end, std::tuple<uint8_t, N *> children[],
-                        uint32_t &childrenCount) {
+                        uint32_t &childrenCount, bool &needRestart) {
         switch (node->getType()) {
             case NTypes::N4: {
                 auto n = static_cast<const N4 *>(node);
-                return n->getChildren(start, end, children, childrenCount);
+                return n->getChildren(start, end, children, childrenCount, needRestart);
             }
             case NTypes::N16: {
                 auto n = static_cast<const N16 *>(node);
-                return n->getChildren(start, end, children, childrenCount);
+                return n->getChildren(start, end, children, childrenCount, needRestart);
             }
             case NTypes::N48: {
                 auto n = static_cast<const N48 *>(node);
-                return n->getChildren(start, end, children, childrenCount);
+                return n->getChildren(start, end, children, childrenCount, needRestart);
             }
             case NTypes::N256: {
                 auto n = static_cast<const N256 *>(node);
-                return n->getChildren(start, end, children, childrenCount);
+                return n->getChildren(start, end, children, childrenCount, needRestart);
             }
         }
         assert(false);
diff --git a/ARTOLC/N.h b/ARTOLC/N.h
index eaf54e0..a589807 100644
--- a/ARTOLC/N.h
+++ b/ARTOLC/N.h
@@ -131,7 +131,7 @@ namespace ART_OLC {
         static void removeAndShrink(curN *n, uint64_t v, N *parentNode, uint64_t parentVersion, uint8_t keyParent, uint8_t key, bool &needRestart, ThreadInfo &threadInfo);
 
         static uint64_t getChildren(const N *node, uint8_t start, uint8_t end, std::tuple<uint8_t, N *> children[],
-                                uint32_t &childrenCount);
+                                uint32_t &childrenCount, bool &needRestart);
     };
 
     class N4 : public N {
@@ -165,7 +165,7 @@ namespace ART_OLC {
         void deleteChildren();
 
         uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                         uint32_t &childrenCount) const;
+                         uint32_t &childrenCount, bool &needRestart) const;
     };
 
     class N16 : public N {
@@ -221,7 +221,7 @@ namespace ART_OLC {
         void deleteChildren();
 
         uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                         uint32_t &childrenCount) const;
+                         uint32_t &childrenCount, bool &needRestart) const;
     };
 
     class N48 : public N {
@@ -256,7 +256,7 @@ namespace ART_OLC {
         void deleteChildren();
 
         uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                         uint32_t &childrenCount) const;
+                         uint32_t &childrenCount, bool &needRestart) const;
     };
 
     class N256 : public N {
@@ -288,7 +288,7 @@ namespace ART_OLC {
         void deleteChildren();
 
         uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                         uint32_t &childrenCount) const;
+                         uint32_t &childrenCount, bool &needRestart) const;
     };
 }
 #endif //ART_OPTIMISTIC_LOCK_COUPLING_N_H
diff --git a/ARTOLC/N16.cpp b/ARTOLC/N16.cpp
index be6f97e..35bffb6 100644
--- a/ARTOLC/N16.cpp
+++ b/ARTOLC/N16.cpp
@@ -86,12 +86,10 @@ namespace ART_OLC {
     }
 
     uint64_t N16::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                          uint32_t &childrenCount) const {
-        restart:
-        bool needRestart = false;
+                          uint32_t &childrenCount, bool &needRestart) const {
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        if (needRestart) return v;
         childrenCount = 0;
         auto startPos = getChildPos(start);
         auto endPos = getChildPos(end);
@@ -106,7 +104,6 @@ namespace ART_OLC {
             childrenCount++;
         }
         readUnlockOrRestart(v, needRestart);
-        if (needRestart) goto restart;
         return v;
     }
 }
\ No newline at end of file
diff --git a/ARTOLC/N256.cpp b/ARTOLC/N256.cpp
index c667a79..e81f940 100644
--- a/ARTOLC/N256.cpp
+++ b/ARTOLC/N256.cpp
@@ -64,12 +64,10 @@ namespace ART_OLC {
     }
 
     uint64_t N256::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                           uint32_t &childrenCount) const {
-        restart:
-        bool needRestart = false;
+                           uint32_t &childrenCount, bool &needRestart) const {
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        if (needRestart) return v;
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->children[i] != nullptr) {
@@ -78,7 +76,6 @@ namespace ART_OLC {
             }
         }
         readUnlockOrRestart(v, needRestart);
-        if (needRestart) goto restart;
         return v;
     }
 }
\ No newline at end of file
diff --git a/ARTOLC/N4.cpp b/ARTOLC/N4.cpp
index 0a3d4ea..3df9c88 100644
--- a/ARTOLC/N4.cpp
+++ b/ARTOLC/N4.cpp
@@ -89,12 +89,10 @@ namespace ART_OLC {
     }
 
     uint64_t N4::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                         uint32_t &childrenCount) const {
-        restart:
-        bool needRestart = false;
+                         uint32_t &childrenCount, bool &needRestart) const {
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        if (needRestart) return v;
         childrenCount = 0;
         for (uint32_t i = 0; i < count; ++i) {
             if (this->keys[i] >= start && this->keys[i] <= end) {
@@ -103,7 +101,6 @@ namespace ART_OLC {
             }
         }
         readUnlockOrRestart(v, needRestart);
-        if (needRestart) goto restart;
         return v;
     }
 }
\ No newline at end of file
diff --git a/ARTOLC/N48.cpp b/ARTOLC/N48.cpp
index b9d1bfb..14ce7c3 100644
--- a/ARTOLC/N48.cpp
+++ b/ARTOLC/N48.cpp
@@ -76,12 +76,10 @@ namespace ART_OLC {
     }
 
     uint64_t N48::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                          uint32_t &childrenCount) const {
-        restart:
-        bool needRestart = false;
+                          uint32_t &childrenCount, bool &needRestart) const {
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        if (needRestart) return v;
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->childIndex[i] != emptyMarker) {
@@ -90,7 +88,6 @@ namespace ART_OLC {
             }
         }
         readUnlockOrRestart(v, needRestart);
-        if (needRestart) goto restart;
         return v;
     }
 }
\ No newline at end of file
diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..dd8a02e 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -99,236 +99,87 @@ namespace ART_OLC {
         }
         EpocheGuard epocheGuard(threadEpocheInfo);
         TID toContinue = 0;
-        std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue, &copy](const N *node) {
-            if (N::isLeaf(node)) {
-                if (resultsFound == resultSize) {
-                    toContinue = N::getLeaf(node);
-                    return;
-                }
-                result[resultsFound] = N::getLeaf(node);
-                resultsFound++;
-            } else {
-                std::tuple<uint8_t, N *> children[256];
-                uint32_t childrenCount = 0;
-                N::getChildren(node, 0u, 255u, children, childrenCount);
-                for (uint32_t i = 0; i < childrenCount; ++i) {
-                    const N *n = std::get<1>(children[i]);
-                    copy(n);
-                    if (toContinue != 0) {
-                        break;
-                    }
-                }
-            }
+        // compares the key of a leaf with a bound, false if it lies outside
+        auto notBefore = [this](TID tid, const Key &bound) {
+            Key kt;
+            loadKey(tid, kt);
+            int c = std::memcmp(&kt[0], &bound[0], std::min(kt.getKeyLen(), bound.getKeyLen()));
+            return c > 0 || (c == 0 && kt.getKeyLen() >= bound.getKeyLen());
+        };
+        auto before = [this](TID tid, const Key &bound) {
+            Key kt;
+            loadKey(tid, kt);
+            int c = std::memcmp(&kt[0], &bound[0], std::min(kt.getKeyLen(), bound.getKeyLen()));
+            return c < 0 || (c == 0 && kt.getKeyLen() != bound.getKeyLen());
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &start, &findStart, &toContinue, this](
-                N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
+        // adds the entries below node in ascending order; onStart/onEnd: the path to node equals start/end so far.
+        // returns false if a node changed meanwhile and the whole lookup has to be restarted
+        std::function<bool(N *, uint32_t, bool, bool, const N *, uint64_t)> collect = [&](
+                N *node, uint32_t level, bool onStart, bool onEnd, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
-                copy(node);
-                return;
-            }
-            uint64_t v;
-            PCCompareResults prefixResult;
-
-            {
-                readAgain:
-                bool needRestart = false;
-                v = node->readLockOrRestart(needRestart);
-                if (needRestart) goto readAgain;
-
-                prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-                if (needRestart) goto readAgain;
-
-                parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) {
-                    readParentAgain:
-		  needRestart = false;
-                    vp = parentNode->readLockOrRestart(needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    node = N::getChild(nodeK, parentNode);
-
-                    parentNode->readUnlockOrRestart(vp, needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    if (node == nullptr) {
-                        return;
-                    }
-                    if (N::isLeaf(node)) {
-                        copy(node);
-                        return;
-                    }
-                    goto readAgain;
+                TID tid = N::getLeaf(node);
+                if ((onStart && !notBefore(tid, start)) || (onEnd && !before(tid, end))) {
+                    return true;
                 }
-                node->readUnlockOrRestart(v, needRestart);
-                if (needRestart) goto readAgain;
-            }
-
-            switch (prefixResult) {
-                case PCCompareResults::Bigger:
-                    copy(node);
-                    break;
-                case PCCompareResults::Equal: {
-                    uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-                    std::tuple<uint8_t, N *> children[256];
-                    uint32_t childrenCount = 0;
-                    v = N::getChildren(node, startLevel, 255, children, childrenCount);
-                    for (uint32_t i = 0; i < childrenCount; ++i) {
-                        const uint8_t k = std::get<0>(children[i]);
-                        N *n = std::get<1>(children[i]);
-                        if (k == startLevel) {
-                            findStart(n, k, level + 1, node, v);
-                        } else if (k > startLevel) {
-                            copy(n);
-                        }
-                        if (toContinue != 0) {
-                            break;
-                        }
-                    }
-                    break;
+                if (resultsFound == resultSize) {
+                    toContinue = tid;
+                } else {
+                    result[resultsFound++] = tid;
                 }
-                case PCCompareResults::Smaller:
-                    break;
+                return true;
             }
-        };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &end, &toContinue, &findEnd, this](
-                N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
-            if (N::isLeaf(node)) {
-                return;
+            bool needRestart = false;
+            uint64_t v = node->readLockOrRestart(needRestart);
+            if (needRestart) return false;
+
+            bool outside = false;
+            if (onStart) {
+                uint32_t startDepth = level;
+                auto res = checkPrefixCompare(node, start, 0, startDepth, loadKey, needRestart);
+                if (needRestart) return false;
+                outside = res == PCCompareResults::Smaller;
+                onStart = res == PCCompareResults::Equal;
             }
-            uint64_t v;
-            PCCompareResults prefixResult;
-            {
-                readAgain:
-                bool needRestart = false;
-                v = node->readLockOrRestart(needRestart);
-                if (needRestart) goto readAgain;
-
-                prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
-                if (needRestart) goto readAgain;
-
+            if (onEnd && !outside) {
+                uint32_t endDepth = level;
+                auto res = checkPrefixCompare(node, end, 255, endDepth, loadKey, needRestart);
+                if (needRestart) return false;
+                outside = res == PCCompareResults::Bigger;
+                onEnd = res == PCCompareResults::Equal;
+            }
+            level += node->getPrefixLength();
+            if (parentNode != nullptr) {
                 parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) {
-                    readParentAgain:
-                    vp = parentNode->readLockOrRestart(needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    node = N::getChild(nodeK, parentNode);
-
-                    parentNode->readUnlockOrRestart(vp, needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    if (node == nullptr) {
-                        return;
-                    }
-                    if (N::isLeaf(node)) {
-                        return;
-                    }
-                    goto readAgain;
-                }
-                node->readUnlockOrRestart(v, needRestart);
-                if (needRestart) goto readAgain;
+                if (needRestart) return false;
             }
-            switch (prefixResult) {
-                case PCCompareResults::Smaller:
-                    copy(node);
-                    break;
-                case PCCompareResults::Equal: {
-                    uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-                    std::tuple<uint8_t, N *> children[256];
-                    uint32_t childrenCount = 0;
-                    v = N::getChildren(node, 0, endLevel, children, childrenCount);
-                    for (uint32_t i = 0; i < childrenCount; ++i) {
-                        const uint8_t k = std::get<0>(children[i]);
-                        N *n = std::get<1>(children[i]);
-                        if (k == endLevel) {
-                            findEnd(n, k, level + 1, node, v);
-                        } else if (k < endLevel) {
-                            copy(n);
-                        }
-                        if (toContinue != 0) {
-                            break;
-                        }
-                    }
-                    break;
+            node->readUnlockOrRestart(v, needRestart);
+            if (needRestart) return false;
+            if (outside) return true;
+
+            uint8_t startLevel = (onStart && start.getKeyLen() > level) ? start[level] : 0;
+            uint8_t endLevel = (onEnd && end.getKeyLen() > level) ? end[level] : 255;
+            std::tuple<uint8_t, N *> children[256];
+            uint32_t childrenCount = 0;
+            uint64_t nv = N::getChildren(node, startLevel, endLevel, children, childrenCount, needRestart);
+            if (needRestart || nv != v) return false;
+            for (uint32_t i = 0; i < childrenCount && toContinue == 0; ++i) {
+                const uint8_t k = std::get<0>(children[i]);
+                if (k < startLevel || k > endLevel) continue;
+                if (!collect(std::get<1>(children[i]), level + 1, onStart && k == startLevel, onEnd && k == endLevel,
+                             node, v)) {
+                    return false;
                 }
-                case PCCompareResults::Bigger:
-                    break;
             }
+            return true;
         };
 
-
         int restartCount = 0;
     restart:
         if (restartCount++)
            yield(restartCount);
-        bool needRestart = false;
-
         resultsFound = 0;
-
-        uint32_t level = 0;
-        N *node = nullptr;
-        N *nextNode = root;
-        N *parentNode;
-        uint64_t v = 0;
-        uint64_t vp;
-
-        while (true) {
-            parentNode = node;
-            vp = v;
-            node = nextNode;
-            PCEqualsResults prefixResult;
-            v = node->readLockOrRestart(needRestart);
-            if (needRestart) goto restart;
-            prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
-            if (needRestart) goto restart;
-            if (parentNode != nullptr) {
-                parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) goto restart;
-            }
-            node->readUnlockOrRestart(v, needRestart);
-            if (needRestart) goto restart;
-
-            switch (prefixResult) {
-                case PCEqualsResults::NoMatch: {
-                    return false;
-                }
-                case PCEqualsResults::Contained: {
-                    copy(node);
-                    break;
-                }
-                case PCEqualsResults::BothMatch: {
-                    uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-                    uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-                    if (startLevel != endLevel) {
-                        std::tuple<uint8_t, N *> children[256];
-                        uint32_t childrenCount = 0;
-                        v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
-                        for (uint32_t i = 0; i < childrenCount; ++i) {
-                            const uint8_t k = std::get<0>(children[i]);
-                            N *n = std::get<1>(children[i]);
-                            if (k == startLevel) {
-                                findStart(n, k, level + 1, node, v);
-                            } else if (k > startLevel && k < endLevel) {
-                                copy(n);
-                            } else if (k == endLevel) {
-                                findEnd(n, k, level + 1, node, v);
-                            }
-                            if (toContinue) {
-                                break;
-                            }
-                        }
-                    } else {
-                        nextNode = N::getChild(startLevel, node);
-                        node->readUnlockOrRestart(v, needRestart);
-                        if (needRestart) goto restart;
-                        level++;
-                        continue;
-                    }
-                    break;
-                }
-            }
-            break;
-        }
+        toContinue = 0;
+        if (!collect(root, 0, true, true, nullptr, 0)) goto restart;
         if (toContinue != 0) {
             loadKey(toContinue, continueKey);
             return true;
@@ -630,29 +481,4 @@ namespace ART_OLC {
         }
         return PCCompareResults::Equal;
     }
-
-    typename Tree::PCEqualsResults Tree::checkPrefixEquals(const N *n, uint32_t &level, const Key &start, const Key &end,
-                                                      LoadKeyFunction loadKey, bool &needRestart) {
-        if (n->hasPrefix()) {
-            Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
-                if (i == maxStoredPrefixLength) {
-                    auto anyTID = N::getAnyChildTid(n, needRestart);
-                    if (needRestart) return PCEqualsResults::BothMatch;
-                    loadKey(anyTID, kt);
-                }
-                uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-                uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-
-                uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
-                if (curKey > startLevel && curKey < endLevel) {
-                    return PCEqualsResults::Contained;
-                } else if (curKey < startLevel || curKey > endLevel) {
-                    return PCEqualsResults::NoMatch;
-                }
-                ++level;
-            }
-        }
-        return PCEqualsResults::BothMatch;
-    }
 }
diff --git a/ARTOLC/Tree.h b/ARTOLC/Tree.h
index 4832807..2d6d1c8 100644
--- a/ARTOLC/Tree.h
+++ b/ARTOLC/Tree.h
@@ -44,11 +44,6 @@ namespace ART_OLC {
             Equal,
             Bigger,
         };
-        enum class PCEqualsResults : uint8_t {
-            BothMatch,
-            Contained,
-            NoMatch
-        };
         static CheckPrefixResult checkPrefix(N* n, const Key &k, uint32_t &level);
 
         static CheckPrefixPessimisticResult checkPrefixPessimistic(N *n, const Key &k, uint32_t &level,
@@ -58,8 +53,6 @@ namespace ART_OLC {
 
         static PCCompareResults checkPrefixCompare(const N* n, const Key &k, uint8_t fillKey, uint32_t &level, LoadKeyFunction loadKey, bool &needRestart);
 
-        static PCEqualsResults checkPrefixEquals(const N* n, uint32_t &level, const Key &start, const Key &end, LoadKeyFunction loadKey, bool &needRestart);
-
     public:
 
         Tree(LoadKeyFunction loadKey);
-- 
2.43.0


From 9876209606b83b6e32718859c5c3a09b8c93e802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 005/102] fix: ARTOLC prefix comparison could copy a negative
 length when the prefix changed concurrently

---
 ARTOLC/Tree.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index dd8a02e..be02698 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -429,8 +429,10 @@ namespace ART_OLC {
                                                                         LoadKeyFunction loadKey, bool &needRestart) {
         if (n->hasPrefix()) {
             uint32_t prevLevel = level;
+            // read once: a concurrent change must not make the lengths below inconsistent
+            const uint32_t prefixLength = n->getPrefixLength();
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return CheckPrefixPessimisticResult::Match;
@@ -439,16 +441,16 @@ namespace ART_OLC {
                 uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
                 if (curKey != k[level]) {
                     nonMatchingKey = curKey;
-                    if (n->getPrefixLength() > maxStoredPrefixLength) {
+                    if (prefixLength > maxStoredPrefixLength) {
                         if (i < maxStoredPrefixLength) {
                             auto anyTID = N::getAnyChildTid(n, needRestart);
                             if (needRestart) return CheckPrefixPessimisticResult::Match;
                             loadKey(anyTID, kt);
                         }
-                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((n->getPrefixLength() - (level - prevLevel) - 1),
+                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((prefixLength - (level - prevLevel) - 1),
                                                                            maxStoredPrefixLength));
                     } else {
-                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, n->getPrefixLength() - i - 1);
+                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, prefixLength - i - 1);
                     }
                     return CheckPrefixPessimisticResult::NoMatch;
                 }
-- 
2.43.0


From 25957193e02abc1513570bcfc19d168cd5364273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 006/102] fix: ARTOLC remove could miss a present key while its
 node moved to another level

---
 ARTOLC/Tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index be02698..f8afb70 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -328,6 +328,10 @@ namespace ART_OLC {
             node = nextNode;
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
+            if (parentNode != nullptr) {    // node may have moved to another level since it was found
+                parentNode->readUnlockOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
 
             switch (checkPrefix(node, k, level)) { // increases level
                 case CheckPrefixResult::NoMatch:
-- 
2.43.0


From f16448d4fea9ce55195c617af3bbd7ccd5cf1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 007/102] fix: OptiQL range lookups left the range, missed
 entries, crashed or never returned

---
 OptiQL/N.cpp    |  11 +-
 OptiQL/N.h      |  11 +-
 OptiQL/N16.cpp  |   7 +-
 OptiQL/N256.cpp |   7 +-
 OptiQL/N4.cpp   |   7 +-
 OptiQL/N48.cpp  |   7 +-
 OptiQL/Tree.cpp | 483 ++++++++----------------------------------------
 OptiQL/Tree.h   |   9 +-
 8 files changed, 98 insertions(+), 444 deletions(-)

diff --git a/OptiQL/N.cpp b/OptiQL/N.cpp
index a55cb3e..df7bf2a 100644
--- a/OptiQL/N.cpp
+++ b/OptiQL/N.cpp
@@ -355,23 +355,24 @@ TID N::getAnyChildTid(const N *n, bool &needRestart) {
 }
 
 uint64_t N::getChildren(const N *node, uint8_t start, uint8_t end,
-                        std::tuple<uint8_t, N *> children[], uint32_t &childrenCount) {
+                        std::tuple<uint8_t, N *> children[], uint32_t &childrenCount,
+                        bool &needRestart) {
   switch (node->getType()) {
     case NTypes::N4: {
       auto n = static_cast<const N4 *>(node);
-      return n->getChildren(start, end, children, childrenCount);
+      return n->getChildren(start, end, children, childrenCount, needRestart);
     }
     case NTypes::N16: {
       auto n = static_cast<const N16 *>(node);
-      return n->getChildren(start, end, children, childrenCount);
+      return n->getChildren(start, end, children, childrenCount, needRestart);
     }
     case NTypes::N48: {
       auto n = static_cast<const N48 *>(node);
-      return n->getChildren(start, end, children, childrenCount);
+      return n->getChildren(start, end, children, childrenCount, needRestart);
     }
     case NTypes::N256: {
       auto n = static_cast<const N256 *>(node);
-      return n->getChildren(start, end, children, childrenCount);
+      return n->getChildren(start, end, children, childrenCount, needRestart);
     }
   }
   assert(false);
diff --git a/OptiQL/N.h b/OptiQL/N.h
index 4438769..cb480c8 100644
--- a/OptiQL/N.h
+++ b/OptiQL/N.h
@@ -245,7 +245,8 @@ class N {
                               uint8_t keyParent, uint8_t key, bool &needRestart, N *&obsoleteN);
 
   static uint64_t getChildren(const N *node, uint8_t start, uint8_t end,
-                              std::tuple<uint8_t, N *> children[], uint32_t &childrenCount);
+                              std::tuple<uint8_t, N *> children[], uint32_t &childrenCount,
+                              bool &needRestart);
 };
 
 class N4 : public N {
@@ -278,7 +279,7 @@ class N4 : public N {
   void deleteChildren();
 
   uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                       uint32_t &childrenCount) const;
+                       uint32_t &childrenCount, bool &needRestart) const;
 };
 
 static_assert(sizeof(N) == sizeof(N::Lock) + 24);
@@ -344,7 +345,7 @@ class N16 : public N {
   void deleteChildren();
 
   uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                       uint32_t &childrenCount) const;
+                       uint32_t &childrenCount, bool &needRestart) const;
 };
 
 class N48 : public N {
@@ -379,7 +380,7 @@ class N48 : public N {
   void deleteChildren();
 
   uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                       uint32_t &childrenCount) const;
+                       uint32_t &childrenCount, bool &needRestart) const;
 };
 
 class N256 : public N {
@@ -410,7 +411,7 @@ class N256 : public N {
   void deleteChildren();
 
   uint64_t getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                       uint32_t &childrenCount) const;
+                       uint32_t &childrenCount, bool &needRestart) const;
 };
 }  // namespace ART_OLC
 #endif  // OPTIQL_ART_OPTIMISTIC_LOCK_COUPLING_N_H
diff --git a/OptiQL/N16.cpp b/OptiQL/N16.cpp
index 09d27a3..69f42dc 100644
--- a/OptiQL/N16.cpp
+++ b/OptiQL/N16.cpp
@@ -85,12 +85,10 @@ void N16::deleteChildren() {
 }
 
 uint64_t N16::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                          uint32_t &childrenCount) const {
-restart:
-  bool needRestart = false;
+                          uint32_t &childrenCount, bool &needRestart) const {
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  if (needRestart) return v;
   childrenCount = 0;
   auto startPos = getChildPos(start);
   auto endPos = getChildPos(end);
@@ -105,7 +103,6 @@ restart:
     childrenCount++;
   }
   readUnlockOrRestart(v, needRestart);
-  if (needRestart) goto restart;
   return v;
 }
 }  // namespace ART_OLC
\ No newline at end of file
diff --git a/OptiQL/N256.cpp b/OptiQL/N256.cpp
index f267577..2f68aa2 100644
--- a/OptiQL/N256.cpp
+++ b/OptiQL/N256.cpp
@@ -60,12 +60,10 @@ N *N256::getAnyChild() const {
 }
 
 uint64_t N256::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                           uint32_t &childrenCount) const {
-restart:
-  bool needRestart = false;
+                           uint32_t &childrenCount, bool &needRestart) const {
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  if (needRestart) return v;
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
     if (this->children[i] != nullptr) {
@@ -74,7 +72,6 @@ restart:
     }
   }
   readUnlockOrRestart(v, needRestart);
-  if (needRestart) goto restart;
   return v;
 }
 }  // namespace ART_OLC
\ No newline at end of file
diff --git a/OptiQL/N4.cpp b/OptiQL/N4.cpp
index 8ad79bf..684545c 100644
--- a/OptiQL/N4.cpp
+++ b/OptiQL/N4.cpp
@@ -88,12 +88,10 @@ std::tuple<N *, uint8_t> N4::getSecondChild(const uint8_t key) const {
 }
 
 uint64_t N4::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                         uint32_t &childrenCount) const {
-restart:
-  bool needRestart = false;
+                         uint32_t &childrenCount, bool &needRestart) const {
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  if (needRestart) return v;
   childrenCount = 0;
   for (uint32_t i = 0; i < count; ++i) {
     if (this->keys[i] >= start && this->keys[i] <= end) {
@@ -102,7 +100,6 @@ restart:
     }
   }
   readUnlockOrRestart(v, needRestart);
-  if (needRestart) goto restart;
   return v;
 }
 }  // namespace ART_OLC
\ No newline at end of file
diff --git a/OptiQL/N48.cpp b/OptiQL/N48.cpp
index a40d6c0..0a34cf4 100644
--- a/OptiQL/N48.cpp
+++ b/OptiQL/N48.cpp
@@ -75,12 +75,10 @@ void N48::deleteChildren() {
 }
 
 uint64_t N48::getChildren(uint8_t start, uint8_t end, std::tuple<uint8_t, N *> *&children,
-                          uint32_t &childrenCount) const {
-restart:
-  bool needRestart = false;
+                          uint32_t &childrenCount, bool &needRestart) const {
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  if (needRestart) return v;
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
     if (this->childIndex[i] != emptyMarker) {
@@ -89,7 +87,6 @@ restart:
     }
   }
   readUnlockOrRestart(v, needRestart);
-  if (needRestart) goto restart;
   return v;
 }
 }  // namespace ART_OLC
\ No newline at end of file
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..15c9bde 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -77,246 +77,16 @@ restart:
 
 bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID result[],
                        std::size_t resultSize, std::size_t &resultsFound) const {
+  resultsFound = 0;
   for (uint32_t i = 0; i < std::min(start.getKeyLen(), end.getKeyLen()); ++i) {
     if (start[i] > end[i]) {
-      resultsFound = 0;
       return false;
     } else if (start[i] < end[i]) {
       break;
     }
   }
 
-  TID toContinue = 0;
-  std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
-                                         &copy](const N *node) {
-    if (N::isLeaf(node)) {
-      if (resultsFound == resultSize) {
-        toContinue = N::getLeaf(node);
-        return;
-      }
-      result[resultsFound] = N::getLeaf(node);
-      resultsFound++;
-    } else {
-      std::tuple<uint8_t, N *> children[256];
-      uint32_t childrenCount = 0;
-      N::getChildren(node, 0u, 255u, children, childrenCount);
-      for (uint32_t i = 0; i < childrenCount; ++i) {
-        const N *n = std::get<1>(children[i]);
-        copy(n);
-        if (toContinue != 0) {
-          break;
-        }
-      }
-    }
-  };
-  std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
-        if (N::isLeaf(node)) {
-          copy(node);
-          return;
-        }
-        uint64_t v;
-        PCCompareResults prefixResult;
-
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
-          prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
-          parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              copy(node);
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
-        }
-
-        switch (prefixResult) {
-          case PCCompareResults::Bigger:
-            copy(node);
-            break;
-          case PCCompareResults::Equal: {
-            uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-            std::tuple<uint8_t, N *> children[256];
-            uint32_t childrenCount = 0;
-            v = N::getChildren(node, startLevel, 255, children, childrenCount);
-            for (uint32_t i = 0; i < childrenCount; ++i) {
-              const uint8_t k = std::get<0>(children[i]);
-              N *n = std::get<1>(children[i]);
-              if (k == startLevel) {
-                findStart(n, k, level + 1, node, v);
-              } else if (k > startLevel) {
-                copy(n);
-              }
-              if (toContinue != 0) {
-                break;
-              }
-            }
-            break;
-          }
-          case PCCompareResults::Smaller:
-            break;
-        }
-      };
-  std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd =
-      [&copy, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
-                                                 const N *parentNode, uint64_t vp) {
-        if (N::isLeaf(node)) {
-          return;
-        }
-        uint64_t v;
-        PCCompareResults prefixResult;
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
-          prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
-          parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
-        }
-        switch (prefixResult) {
-          case PCCompareResults::Smaller:
-            copy(node);
-            break;
-          case PCCompareResults::Equal: {
-            uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-            std::tuple<uint8_t, N *> children[256];
-            uint32_t childrenCount = 0;
-            v = N::getChildren(node, 0, endLevel, children, childrenCount);
-            for (uint32_t i = 0; i < childrenCount; ++i) {
-              const uint8_t k = std::get<0>(children[i]);
-              N *n = std::get<1>(children[i]);
-              if (k == endLevel) {
-                findEnd(n, k, level + 1, node, v);
-              } else if (k < endLevel) {
-                copy(n);
-              }
-              if (toContinue != 0) {
-                break;
-              }
-            }
-            break;
-          }
-          case PCCompareResults::Bigger:
-            break;
-        }
-      };
-
-restart:
-  bool needRestart = false;
-
-  resultsFound = 0;
-
-  uint32_t level = 0;
-  N *node = nullptr;
-  N *nextNode = root;
-  N *parentNode;
-  uint64_t v = 0;
-  uint64_t vp;
-
-  while (true) {
-    parentNode = node;
-    vp = v;
-    node = nextNode;
-    PCEqualsResults prefixResult;
-    v = node->readLockOrRestart(needRestart);
-    if (needRestart) goto restart;
-    prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
-    if (needRestart) goto restart;
-    if (parentNode != nullptr) {
-      parentNode->readUnlockOrRestart(vp, needRestart);
-      if (needRestart) goto restart;
-    }
-    node->readUnlockOrRestart(v, needRestart);
-    if (needRestart) goto restart;
-
-    switch (prefixResult) {
-      case PCEqualsResults::NoMatch: {
-        return false;
-      }
-      case PCEqualsResults::Contained: {
-        copy(node);
-        break;
-      }
-      case PCEqualsResults::BothMatch: {
-        uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-        uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-        if (startLevel != endLevel) {
-          std::tuple<uint8_t, N *> children[256];
-          uint32_t childrenCount = 0;
-          v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
-          for (uint32_t i = 0; i < childrenCount; ++i) {
-            const uint8_t k = std::get<0>(children[i]);
-            N *n = std::get<1>(children[i]);
-            if (k == startLevel) {
-              findStart(n, k, level + 1, node, v);
-            } else if (k > startLevel && k < endLevel) {
-              copy(n);
-            } else if (k == endLevel) {
-              findEnd(n, k, level + 1, node, v);
-            }
-            if (toContinue) {
-              break;
-            }
-          }
-        } else {
-          nextNode = N::getChild(startLevel, node);
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto restart;
-          level++;
-          continue;
-        }
-        break;
-      }
-    }
-    break;
-  }
+  TID toContinue = collectRange(start, &end, result, resultSize, resultsFound);
   if (toContinue != 0) {
     loadKey(toContinue, continueKey);
     return true;
@@ -327,167 +97,88 @@ restart:
 
 bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
                        std::size_t &resultsFound) const {
+  collectRange(start, nullptr, result, resultSize, resultsFound);
+  return false;
+}
+
+TID Tree::collectRange(const Key &start, const Key *end, TID result[], std::size_t resultSize,
+                       std::size_t &resultsFound) const {
   TID toContinue = 0;
-  std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
-                                         &copy](const N *node) {
-    if (N::isLeaf(node)) {
-      if (resultsFound == resultSize) {
-        toContinue = N::getLeaf(node);
-        return;
-      }
-      result[resultsFound] = N::getLeaf(node);
-      resultsFound++;
-    } else {
-      std::tuple<uint8_t, N *> children[256];
-      uint32_t childrenCount = 0;
-      N::getChildren(node, 0u, 255u, children, childrenCount);
-      for (uint32_t i = 0; i < childrenCount; ++i) {
-        const N *n = std::get<1>(children[i]);
-        copy(n);
-        if (toContinue != 0) {
-          break;
-        }
-      }
-    }
+  // compares the key of a leaf with a bound
+  auto compare = [this](TID tid, const Key &bound) {
+    Key kt;
+    loadKey(tid, kt);
+    int c = memcmp(&kt[0], &bound[0], std::min(kt.getKeyLen(), bound.getKeyLen()));
+    if (c != 0) return c;
+    return kt.getKeyLen() < bound.getKeyLen() ? -1 : kt.getKeyLen() > bound.getKeyLen();
   };
-  std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
+  // adds the entries below node in ascending order; onStart/onEnd: the path to node equals start/end
+  // so far. returns false if a node changed meanwhile and the whole lookup has to be restarted
+  std::function<bool(N *, uint32_t, bool, bool, const N *, uint64_t)> collect =
+      [&](N *node, uint32_t level, bool onStart, bool onEnd, const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
-          copy(node);
-          return;
+          TID tid = N::getLeaf(node);
+          if ((onStart && compare(tid, start) < 0) || (onEnd && compare(tid, *end) >= 0)) {
+            return true;
+          }
+          if (resultsFound == resultSize) {
+            toContinue = tid;
+          } else {
+            result[resultsFound++] = tid;
+          }
+          return true;
         }
-        uint64_t v;
-        PCCompareResults prefixResult;
-
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
-          prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
+        bool needRestart = false;
+        uint64_t v = node->readLockOrRestart(needRestart);
+        if (needRestart) return false;
+
+        bool outside = false;
+        if (onStart) {
+          uint32_t startDepth = level;
+          auto res = checkPrefixCompare(node, start, 0, startDepth, loadKey, needRestart);
+          if (needRestart) return false;
+          outside = res == PCCompareResults::Smaller;
+          onStart = res == PCCompareResults::Equal;
+        }
+        if (onEnd && !outside) {
+          uint32_t endDepth = level;
+          auto res = checkPrefixCompare(node, *end, 255, endDepth, loadKey, needRestart);
+          if (needRestart) return false;
+          outside = res == PCCompareResults::Bigger;
+          onEnd = res == PCCompareResults::Equal;
+        }
+        level += node->getPrefixLength();
+        if (parentNode != nullptr) {
           parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              copy(node);
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
+          if (needRestart) return false;
         }
-
-        switch (prefixResult) {
-          case PCCompareResults::Bigger:
-            copy(node);
-            break;
-          case PCCompareResults::Equal: {
-            uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-            std::tuple<uint8_t, N *> children[256];
-            uint32_t childrenCount = 0;
-            v = N::getChildren(node, startLevel, 255, children, childrenCount);
-            for (uint32_t i = 0; i < childrenCount; ++i) {
-              const uint8_t k = std::get<0>(children[i]);
-              N *n = std::get<1>(children[i]);
-              if (k == startLevel) {
-                findStart(n, k, level + 1, node, v);
-              } else if (k > startLevel) {
-                copy(n);
-              }
-              if (toContinue != 0) {
-                break;
-              }
-            }
-            break;
+        node->readUnlockOrRestart(v, needRestart);
+        if (needRestart) return false;
+        if (outside) return true;
+
+        uint8_t startLevel = (onStart && start.getKeyLen() > level) ? start[level] : 0;
+        uint8_t endLevel = (onEnd && end->getKeyLen() > level) ? (*end)[level] : 255;
+        std::tuple<uint8_t, N *> children[256];
+        uint32_t childrenCount = 0;
+        uint64_t nv =
+            N::getChildren(node, startLevel, endLevel, children, childrenCount, needRestart);
+        if (needRestart || nv != v) return false;
+        for (uint32_t i = 0; i < childrenCount && toContinue == 0; ++i) {
+          const uint8_t k = std::get<0>(children[i]);
+          if (k < startLevel || k > endLevel) continue;
+          if (!collect(std::get<1>(children[i]), level + 1, onStart && k == startLevel,
+                       onEnd && k == endLevel, node, v)) {
+            return false;
           }
-          case PCCompareResults::Smaller:
-            break;
         }
+        return true;
       };
 
-restart:
-  bool needRestart = false;
-
-  resultsFound = 0;
-
-  uint32_t level = 0;
-  N *node = nullptr;
-  N *nextNode = root;
-  N *parentNode;
-  uint64_t v = 0;
-  uint64_t vp;
-
-  while (true) {
-    parentNode = node;
-    vp = v;
-    node = nextNode;
-    PCCompareResults compareResult;
-    v = node->readLockOrRestart(needRestart);
-    if (needRestart) goto restart;
-    compareResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-    if (needRestart) goto restart;
-    if (parentNode != nullptr) {
-      parentNode->readUnlockOrRestart(vp, needRestart);
-      if (needRestart) goto restart;
-    }
-    node->readUnlockOrRestart(v, needRestart);
-    if (needRestart) goto restart;
-
-    switch (compareResult) {
-      case PCCompareResults::Smaller: {
-        return false;
-      }
-      case PCCompareResults::Equal:
-      case PCCompareResults::Bigger: {
-        uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-        uint8_t endLevel = 255;
-        if (startLevel != endLevel) {
-          std::tuple<uint8_t, N *> children[256];
-          uint32_t childrenCount = 0;
-          v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
-          for (uint32_t i = 0; i < childrenCount; ++i) {
-            const uint8_t k = std::get<0>(children[i]);
-            N *n = std::get<1>(children[i]);
-            if (k == startLevel) {
-              findStart(n, k, level + 1, node, v);
-            } else if (k > startLevel) {
-              copy(n);
-            }
-            if (toContinue) {
-              break;
-            }
-          }
-        } else {
-          nextNode = N::getChild(startLevel, node);
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto restart;
-          level++;
-          continue;
-        }
-        break;
-      }
-    }
-    break;
-  }
-
-  return false;
+  do {
+    resultsFound = 0;
+    toContinue = 0;
+  } while (!collect(root, 0, true, end != nullptr, nullptr, 0));
+  return toContinue;
 }
 
 TID Tree::checkKey(const TID tid, const Key &k) const {
@@ -1407,30 +1098,4 @@ typename Tree::PCCompareResults Tree::checkPrefixCompare(const N *n, const Key &
   }
   return PCCompareResults::Equal;
 }
-
-typename Tree::PCEqualsResults Tree::checkPrefixEquals(const N *n, uint32_t &level,
-                                                       const Key &start, const Key &end,
-                                                       LoadKeyFunction loadKey, bool &needRestart) {
-  if (n->hasPrefix()) {
-    Key kt;
-    for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
-      if (i == maxStoredPrefixLength) {
-        auto anyTID = N::getAnyChildTid(n, needRestart);
-        if (needRestart) return PCEqualsResults::BothMatch;
-        loadKey(anyTID, kt);
-      }
-      uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-      uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-
-      uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
-      if (curKey > startLevel && curKey < endLevel) {
-        return PCEqualsResults::Contained;
-      } else if (curKey < startLevel || curKey > endLevel) {
-        return PCEqualsResults::NoMatch;
-      }
-      ++level;
-    }
-  }
-  return PCEqualsResults::BothMatch;
-}
 }  // namespace ART_OLC
diff --git a/OptiQL/Tree.h b/OptiQL/Tree.h
index 1b2123c..cedf24f 100644
--- a/OptiQL/Tree.h
+++ b/OptiQL/Tree.h
@@ -42,7 +42,6 @@ class Tree {
     Equal,
     Bigger,
   };
-  enum class PCEqualsResults : uint8_t { BothMatch, Contained, NoMatch };
   static CheckPrefixResult checkPrefix(N *n, const Key &k, uint32_t &level);
 
   static CheckPrefixPessimisticResult checkPrefixPessimistic(
@@ -53,10 +52,6 @@ class Tree {
                                              uint32_t &level, LoadKeyFunction loadKey,
                                              bool &needRestart);
 
-  static PCEqualsResults checkPrefixEquals(const N *n, uint32_t &level, const Key &start,
-                                           const Key &end, LoadKeyFunction loadKey,
-                                           bool &needRestart);
-
 #if defined(IS_CONTEXTFUL)
   bool traverseToLeafEx(const Key &k, OMCSLock::Context &q, N *&parentNode, uint32_t &level,
                         bool &upgraded);
@@ -69,6 +64,10 @@ class Tree {
   bool traverseToLeafAcquireEx(const Key &k, N *&parentNode, uint32_t &level);
 #endif
 
+  // returns the first entry that did not fit, 0 if there is none; end == nullptr: no upper bound
+  TID collectRange(const Key &start, const Key *end, TID result[], std::size_t resultLen,
+                   std::size_t &resultCount) const;
+
   void tryExpand(const Key &k, N *parentNode, uint32_t level, N *tid);
 
  public:
-- 
2.43.0


From 58dce8ec355e7b69bbd927d0a711cb551be69719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 008/102] fix: OptiQL remove of a frequently updated key failed
 an assertion or left an empty node

---
 OptiQL/Tree.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 15c9bde..945ddb7 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -946,7 +946,25 @@ restart:
           if (N::getLeaf(nextNode) != tid) {
             return false;
           }
-          assert(parentNode == nullptr || node->getCount() != 1);
+          if (node->getCount() == 1 && parentNode != nullptr) {
+            // path materialized by tryExpand: pull the only entry up and start over
+            DEFINE_CONTEXT(parentQ, 1);
+            DEFINE_CONTEXT(q, 0);
+            UPGRADE_PARENT();
+            if (needRestart) goto restart;
+
+            UPGRADE_NODE(node);
+            if (needRestart) {
+              UNLOCK_PARENT();
+              goto restart;
+            }
+            N::change(parentNode, parentKey, nextNode);
+            UNLOCK_PARENT();
+            node->setObsolete();
+            UNLOCK_NODE(node);
+            this->removeNode(node);
+            goto restart;
+          }
           if (node->getCount() == 2 && parentNode != nullptr) {
             DEFINE_CONTEXT(parentQ, 1);
             DEFINE_CONTEXT(q, 0);
-- 
2.43.0


From c70d19beda518fbfc3e43a4bcc1459ca9d4b3808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 009/102] fix: OptiQL update could report a present key as
 absent while its node changed

---
 OptiQL/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 945ddb7..5d352aa 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -339,7 +339,7 @@ restart:
         }
         parentNode = node;
         node = N::getChild(k[level], parentNode);
-        if (level < k.getKeyLen() - 1) {
+        if (!lockAcquired) {
           parentNode->checkOrRestart(v, needRestart);
           if (needRestart) goto restart;
         }
-- 
2.43.0


From 4195ddca15982e1a736e015d529bf9a768d45e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 010/102] fix: OptiQL remove could miss a present key while its
 node moved to another level

---
 OptiQL/Tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 5d352aa..910c494 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -922,6 +922,10 @@ restart:
     node = nextNode;
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
+    if (parentNode != nullptr) {  // node may have moved to another level since it was found
+      parentNode->readUnlockOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
 
     switch (checkPrefix(node, k, level)) {  // increases level
       case CheckPrefixResult::NoMatch:
-- 
2.43.0


From 7e5b6e1bc9e1e864a6eb9488556c41039ca82537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 011/102] fix: OptiQL lock with opportunistic read could be
 upgraded while another thread held it

---
 OptiQL/latches/OMCSImpl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/OptiQL/latches/OMCSImpl.h b/OptiQL/latches/OMCSImpl.h
index 3c32147..6b721eb 100644
--- a/OptiQL/latches/OMCSImpl.h
+++ b/OptiQL/latches/OMCSImpl.h
@@ -347,6 +347,12 @@ class OMCSLock {
   }
 
   inline bool try_lock(OMCSQNode *qnode, uint64_t version) {
+#ifdef OMCS_OP_READ
+    // an opportunistic read: somebody holds the lock, or is about to get it
+    if (OMCSLock::has_locked_bit(version)) {
+      return false;
+    }
+#endif
     if (!validate_read(version)) {
       return false;
     }
-- 
2.43.0


From b6ba629674d95047f392fb1824eaefb0f6cae24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 012/102] MassTree: guarded reclamation parameters for
 verification builds

---
 MassTree/kvthread.hh | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/MassTree/kvthread.hh b/MassTree/kvthread.hh
index fc03339..76cbdde 100644
--- a/MassTree/kvthread.hh
+++ b/MassTree/kvthread.hh
@@ -46,7 +46,11 @@ struct limbo_group {
         } u_;
     };
 
+#ifdef INDEXRESEARCH_VERIF_LIMBO_CAPACITY
+    enum { capacity = INDEXRESEARCH_VERIF_LIMBO_CAPACITY };
+#else
     enum { capacity = (4076 - sizeof(epoch_type) - sizeof(limbo_group*)) / sizeof(limbo_element) };
+#endif
     unsigned head_;
     unsigned tail_;
     epoch_type epoch_;
@@ -259,7 +263,11 @@ class threadinfo {
     }
 
     // RCU
+#ifdef INDEXRESEARCH_VERIF_RCU_FREE_COUNT
+    enum { rcu_free_count = INDEXRESEARCH_VERIF_RCU_FREE_COUNT };
+#else
     enum { rcu_free_count = 128 }; // max # of entries to free per rcu_quiesce() call
+#endif
     void rcu_start() {
         if (gc_epoch_ != globalepoch)
             gc_epoch_ = globalepoch;
@@ -330,9 +338,13 @@ class threadinfo {
             (*static_cast<mrcu_callback*>(p))(*this);
         else {
             p = memdebug::check_free_after_rcu(p, tag);
+#ifdef INDEXRESEARCH_VERIF_NO_POOL
+            ::free(p);
+#else
             int nl = tag & memtag_pool_mask;
             *reinterpret_cast<void**>(p) = pool_[nl - 1];
             pool_[nl - 1] = p;
+#endif
         }
     }
 
@@ -347,7 +359,9 @@ class threadinfo {
     static int no_pool_value;
 #endif
     static bool use_pool() {
-#if ENABLE_ASSERTIONS
+#ifdef INDEXRESEARCH_VERIF_NO_POOL
+        return false;
+#elif ENABLE_ASSERTIONS
         return !no_pool_value;
 #else
         return true;
-- 
2.43.0


From 4136129501e0761e606e0b29181f643377eb7a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 013/102] fix: MassTree destroy leaked layers whose root had
 split

---
 MassTree/masstree_remove.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index b1a749d..09c67ae 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -338,8 +338,14 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             typename leaf_type::permuter_type perm = l->permutation();
             for (int i = 0; i != l->size(); ++i) {
                 int p = perm[i];
-                if (l->is_layer(p))
-                    enqueue(l->lv_[p].layer(), tailp);
+                if (l->is_layer(p)) {
+                    // lv_ may still name a node that has split since
+                    node_base<P>* layer = l->lv_[p].layer();
+                    while (!layer->is_root()) {
+                        layer = layer->maybe_parent();
+                    }
+                    enqueue(layer, tailp);
+                }
             }
             l->deallocate(ti);
         } else {
-- 
2.43.0


From c4f6cce408d05f51fdcd941fac8cd96c7e6836e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 014/102] fix: MassTree handed nodes to deferred reclamation
 while readers could still find them

---
 MassTree/masstree_remove.hh  | 36 ++++++++++++++++++++++--------------
 MassTree/masstree_tcursor.hh |  2 +-
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 09c67ae..ac377ce 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -21,7 +21,7 @@
 namespace Masstree {
 
 template <typename P>
-bool tcursor<P>::gc_layer(threadinfo& ti)
+leaf<P>* tcursor<P>::gc_layer(threadinfo& ti)
 {
     find_locked(ti);
     masstree_precondition(!n_->deleted() && !n_->deleted_layer());
@@ -30,7 +30,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // succeeded at removing multiple tree layers. So check that the whole
     // key has been consumed
     if (ka_.has_suffix()) {
-        return false;
+        return nullptr;
     }
 
     // find the slot for the child tree
@@ -40,12 +40,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // length ikey_size; we need to adjust ki_.
     kx_.i += has_value();
     if (kx_.i >= n_->size()) {
-        return false;
+        return nullptr;
     }
     permuter_type perm(n_->permutation_);
     kx_.p = perm[kx_.i];
     if (n_->ikey0_[kx_.p] != ka_.ikey() || !n_->is_layer(kx_.p)) {
-        return false;
+        return nullptr;
     }
 
     // remove redundant internode layers
@@ -63,7 +63,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
 
         internode_type *in = static_cast<internode_type *>(layer);
         if (in->size() > 0) {
-            return false;
+            return nullptr;
         }
         in->lock(*layer, ti.lock_fence(tc_internode_lock));
         if (!in->is_root() || in->size() > 0) {
@@ -88,7 +88,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     {
         leaf_type* lf = static_cast<leaf_type*>(layer);
         if (lf->size() > 0) {
-            return false;
+            return nullptr;
         }
         lf->lock(*lf, ti.lock_fence(tc_leaf_lock));
         if (!lf->is_root() || lf->size() > 0) {
@@ -105,13 +105,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
-        return true;
+        return lf;
     }
 
  unlock_layer:
     layer->unlock();
-    return false;
+    return nullptr;
 }
 
 template <typename P>
@@ -139,10 +138,14 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     }
     if (!root_->deleted()) {    // if not destroying tree...
         tcursor<P> lp(root_, s_, len_);
-        bool do_remove = lp.gc_layer(ti);
-        if (!do_remove || !lp.finish_remove(ti)) {
+        leaf<P>* removed = lp.gc_layer(ti);
+        if (!removed || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
+        // RCU-free the layer only now that no new reader can find it
+        if (removed) {
+            removed->deallocate_rcu(ti);
+        }
         ti.deallocate(this, size(), memtag_masstree_gc);
     }
 }
@@ -186,9 +189,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
     // kept up to date
@@ -238,6 +240,13 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         n->unlock();
+        // RCU-free n only now that it is unreachable: a reader that still
+        // found it must not have a newer epoch than the one recorded for it
+        if (n->isleaf()) {
+            leaf->deallocate_rcu(ti);
+        } else {
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -245,7 +254,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
diff --git a/MassTree/masstree_tcursor.hh b/MassTree/masstree_tcursor.hh
index b3782dd..6b65d03 100644
--- a/MassTree/masstree_tcursor.hh
+++ b/MassTree/masstree_tcursor.hh
@@ -193,7 +193,7 @@ class tcursor {
     static bool remove_leaf(leaf_type* leaf, node_type* root,
                             Str prefix, threadinfo& ti);
 
-    bool gc_layer(threadinfo& ti);
+    leaf_type* gc_layer(threadinfo& ti);
     friend struct gc_layer_rcu_callback<P>;
 };
 
-- 
2.43.0


From 0c43b4844d08bfbea3025acfd6b298bc7fda6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 015/102] wormhole: guarded node, hash table and slab sizes for
 verification builds

---
 wormhole/wh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ffb1da6..45271a9 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -14,7 +14,16 @@
 // }}} headers
 
 // def {{{
+#if defined(INDEXRESEARCH_VERIF_HMAPINIT) // verification builds only: a small initial hash table
+#define WH_HMAPINIT_SIZE ((INDEXRESEARCH_VERIF_HMAPINIT))
+#else
 #define WH_HMAPINIT_SIZE ((1u << 12)) // 10: 16KB/64KB  12: 64KB/256KB  14: 256KB/1MB
+#endif
+
+#if defined(INDEXRESEARCH_VERIF_SLAB) // verification builds only: small slab blocks
+#define WH_SLABMETA_SIZE ((INDEXRESEARCH_VERIF_SLAB))
+#define WH_SLABLEAF_SIZE ((INDEXRESEARCH_VERIF_SLAB))
+#else
 #define WH_SLABMETA_SIZE ((1lu << 21)) // 2MB
 
 #ifndef HEAPCHECKING
@@ -22,8 +31,13 @@
 #else
 #define WH_SLABLEAF_SIZE ((1lu << 21)) // 2MB for valgrind
 #endif
+#endif
 
+#if defined(INDEXRESEARCH_VERIF_KPN) // verification builds only: fewer keys per node
+#define WH_KPN ((INDEXRESEARCH_VERIF_KPN))
+#else
 #define WH_KPN ((128u)) // keys per node; power of 2
+#endif
 #define WH_HDIV (((1u << 16)) / WH_KPN)
 #define WH_MID ((WH_KPN >> 1)) // ideal cut point for split, the closer the better
 #define WH_BKT_NR ((8))
-- 
2.43.0


From 3354bebb0996838bfad4f2f9c9b78ccee389e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 016/102] fix: MassTree string bag of maximum capacity could
 wrap its fill level

---
 MassTree/stringbag.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/stringbag.hh b/MassTree/stringbag.hh
index 701de14..c176c55 100644
--- a/MassTree/stringbag.hh
+++ b/MassTree/stringbag.hh
@@ -124,7 +124,8 @@ class stringbag {
         if (mylen >= (unsigned) len)
             pos = info_[p].pos;
         else if (size_ + (unsigned) std::max(len, slice_type::size)
-                   <= capacity()) {
+                   <= capacity()
+                 && size_ + (unsigned) len < max_size()) {
             pos = size_;
             size_ += len;
         } else
-- 
2.43.0


From ba8f48c54d4eafe3463ec24a2fd52db9d3949461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 017/102] fix: wormhole's unsafe range deletion removed keys
 when the end precedes the start

---
 wormhole/wh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index 45271a9..4ee7fa4 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -3061,6 +3061,10 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  // do nothing if end < start; leafz must not be on the left of leafa
+  if (end && (kref_compare(end, start) < 0))
+    return 0;
+
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0


From be7610bdf41e51e3b5bace4216159a99c6e75352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 018/102] fix: wormhole's cuckoo insertion could recurse for
 ever between two full hash slots

---
 wormhole/wh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index 4ee7fa4..88d76a1 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -1007,9 +1007,9 @@ wormhmap_cuckoo(struct wormhmap * const hmap, const u32 mid0,
     const u32 midy = wormhole_bswap(hash32) & hmap->mask;
     const u32 midt = (midx != mid0) ? midx : midy;
     if (midt != mid0) { // possible
-      // no penalty if moving someone back to its 1st hash location
-      const u32 depth1 = (midt == midx) ? depth : (depth - 1);
-      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth1)) {
+      // every move costs one level, also back to the 1st hash location; with at most
+      // two levels a chain of moves cannot come back to a full slot it started from
+      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth - 1)) {
         bkt->e[i] = e0;
         sv[i] = s0;
         return true;
-- 
2.43.0


From 4b5fca8df242836c62976b47920a33c5b576a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 019/102] fix: wormhole's qsbr_wait dereferenced a null pointer
 while a thread was registering

---
 wormhole/lib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8c67e10..4c28eac 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2866,6 +2866,10 @@ qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
   memset(q, 0, sizeof(*q));
+  // qsbr_wait may look at a slot between its bit being set and its ptr being stored
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++)
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      q->shards[i].ptrs[j] = (u64)(&q->target);
   return q;
 }
 
-- 
2.43.0


From b197a23f017541903deadff502e4b5bea21663b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 020/102] HOT: guarded reclamation threshold for verification
 builds

---
 .../ThreadSpecificEpochBasedReclamationInformation.hpp     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
index da04228..4df9a48 100644
--- a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
+++ b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
@@ -10,6 +10,11 @@ namespace hot { namespace rowex {
 
 constexpr uint32_t NUMBER_EPOCHS = 3;
 constexpr uint32_t NOT_IN_EPOCH = NUMBER_EPOCHS;
+#ifdef INDEXRESEARCH_VERIF_HOT_FREES
+constexpr uint32_t FREES_PER_EPOCH_ADVANCE = INDEXRESEARCH_VERIF_HOT_FREES;
+#else
+constexpr uint32_t FREES_PER_EPOCH_ADVANCE = 64u;
+#endif
 
 class ThreadSpecificEpochBasedReclamationInformation {
 	std::array<std::vector<HOTRowexChildPointer>, NUMBER_EPOCHS> mFreeLists;
@@ -36,7 +41,7 @@ public:
 		assert(mLocalEpoch != NOT_IN_EPOCH);
 		std::vector<HOTRowexChildPointer> & currentFreeList = mFreeLists[mLocalEpoch];
 		currentFreeList.emplace_back(childPointer);
-		mThreadWantsToAdvance = (currentFreeList.size() % 64u) == 0;
+		mThreadWantsToAdvance = (currentFreeList.size() % FREES_PER_EPOCH_ADVANCE) == 0;
 	}
 
 	uint32_t getLocalEpoch() const {
-- 
2.43.0


From 58a07344c3dd96682840475bf146bce55e51c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 021/102] fix: HOT lookup in an empty trie dereferenced a null
 node

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index ac38163..3e9555c 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -64,6 +64,9 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 	uint8_t const* byteKey = idx::contenthelpers::interpretAsByteArray(fixedSizeKey);
 
 	HOTRowexChildPointer current =  mRoot;
+	if(!current.isUsed()) {
+		return {};
+	}
 	while(!current.isLeaf()) {
 		current = *(current.search(byteKey));
 	}
-- 
2.43.0


From c7e2795c77b5a019de5dd841e3cf0682e27019f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 022/102] fix: HOT lower_bound and upper_bound missed the entry
 of a trie with a single entry

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 1718c7a..5df82fb 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -57,11 +57,9 @@ public:
 
 	static inline HOTRowexSynchronizedIterator getBounded(HOTRowexChildPointer const * rootPointer, KeyType const & searchKey, bool isLowerBound, EpochBasedMemoryReclamationStrategy * const & memoryReclamationStrategy) {
 		MemoryGuard guard(memoryReclamationStrategy);
-		HOTRowexChildPointer const & currentRoot = *rootPointer;
+		HOTRowexChildPointer const currentRoot = *rootPointer;
 
-		return (currentRoot.isLeaf()
-				&& idx::contenthelpers::contentEquals(searchKey, extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid())))
-			   ) || currentRoot.isAValidNode()
+		return currentRoot.isUsed()
 			   ? HOTRowexSynchronizedIterator(rootPointer, currentRoot, searchKey, isLowerBound, memoryReclamationStrategy, guard)
 			   : END_ITERATOR;
 	}
@@ -208,7 +206,12 @@ private:
 
 		idx::contenthelpers::OptionalValue<hot::commons::DiscriminativeBit> mismatchingBit = hot::commons::getMismatchingBit(existingKeyBytes, searchKeyBytes, idx::contenthelpers::getMaxKeyLength<KeyType>());
 
-		if(mismatchingBit.mIsValid) {
+		if(mismatchingBit.mIsValid && currentStackEntry == currentStackRoot) {
+			//the trie consists of a single leaf, which qualifies only if its key is larger than the search key
+			return mismatchingBit.mValue.mValue
+				   ? HotRowexIteratorBufferState<KeyType>(bufferRoot)
+				   : fillBuffer({ bufferRoot }, { currentStackRoot, ITERATOR_FILL_BUFFER_STATE_STORE, currentStackEntry }, guard);
+		} else if(mismatchingBit.mIsValid) {
 			HOTRowexChildPointer const * childPointerLocation = currentStackEntry->getCurrentPointerLocation();
 			--mMostSignificantBitIndex;
 			--currentStackEntry;
-- 
2.43.0


From 5d1776043f7f67b21cfcecbfce067370a922431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 023/102] fix: HOT upsert of a second key reported it as a
 replacement of itself

---
 HOT/include/hot/rowex/HOTRowex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 3e9555c..2c12c29 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -167,7 +167,7 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				upsertCompleted = mRoot.compareAndSwap(currentRoot, HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
 				upsertResult = { true, existingValue };
 			} else {
-				insertGuarded(newValue);
+				upsertCompleted = insertGuarded(newValue);
 			}
 		} else {
 			HOTRowexChildPointer newRootPointer(idx::contenthelpers::valueToTid(newValue));
-- 
2.43.0


From fa726eda1f508c58b688f9d11bb475b96a7adbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 024/102] fix: HOT upsert could overwrite a leaf that another
 thread had replaced or pushed down

---
 HOT/include/hot/rowex/HOTRowex.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 2c12c29..e04666a 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -152,12 +152,15 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 			} else {
 				InsertStackEntryType &leafEntry = *insertStack.mLeafEntry;
 				InsertStackEntryType* parentEntry = insertStack.mLeafEntry - 1;
-				if(parentEntry->tryLock()) { //Check for consistency
-					ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
-						leafEntry.getChildPointer().getTid());
-					leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
-					upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
-					upsertCompleted = true;
+				if(parentEntry->tryLock()) {
+					//Check for consistency: the leaf might have been replaced before the lock was acquired
+					if(leafEntry.isConsistent()) {
+						ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
+							leafEntry.getChildPointer().getTid());
+						leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
+						upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
+						upsertCompleted = true;
+					}
 					parentEntry->unlock();
 				}
 			}
-- 
2.43.0


From e11ba7834c05759220c00f6b4c85e93fbaa2987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 025/102] fix: HOT could free nodes under a thread that was
 delayed while entering an epoch

---
 .../hot/rowex/EpochBasedMemoryReclamationStrategy.hpp     | 8 ++++++++
 .../ThreadSpecificEpochBasedReclamationInformation.hpp    | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
index 162e3d2..b05655d 100644
--- a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
+++ b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
@@ -35,6 +35,14 @@ public:
 		ThreadSpecificEpochBasedReclamationInformation & currentMemoryInformation = mThreadSpecificInformations.local();
 		uint32_t currentEpoch = mCurrentEpoch.load(std::memory_order_acquire);
 		currentMemoryInformation.enter(currentEpoch);
+		//The epoch might have advanced more than once before this thread became visible in it: follow it,
+		//because otherwise nodes this thread is going to read could be freed too early
+		uint32_t latestEpoch;
+		while((latestEpoch = mCurrentEpoch.load()) != currentEpoch) {
+			currentMemoryInformation.leave();
+			currentMemoryInformation.enter(latestEpoch);
+			currentEpoch = latestEpoch;
+		}
 		if(currentMemoryInformation.doesThreadWantToAdvanceEpoch() && canAdvance(currentEpoch)) {
 			mCurrentEpoch.compare_exchange_strong(currentEpoch, NEXT_EPOCH[currentEpoch]);
 		}
diff --git a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
index 4df9a48..9e44eb1 100644
--- a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
+++ b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
@@ -55,7 +55,7 @@ public:
 			mThreadWantsToAdvance = false;
 			mPreviouslyAccessedEpoch = newEpoch;
 		}
-		mLocalEpoch.store(newEpoch, std::memory_order_release);
+		mLocalEpoch.store(newEpoch);
 	}
 
 	void leave()  {
-- 
2.43.0


From b1b17dbc18ec9ee811d189e756d63a9355643944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 026/102] fix: GoogleBTree multimap insert of one of its own
 values read memory it had freed or moved

---
 GoogleBTree/btree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GoogleBTree/btree.h b/GoogleBTree/btree.h
index 49310a2..d1ac22e 100644
--- a/GoogleBTree/btree.h
+++ b/GoogleBTree/btree.h
@@ -2204,6 +2204,8 @@ btree<P>::internal_insert(iterator iter, const value_type &v) {
     ++iter.position;
   }
   if (iter.node->count() == iter.node->max_count()) {
+    // The new item may be a value of this btree, and making room moves values.
+    const value_type copy(v);
     // Make room in the leaf for the new item.
     if (iter.node->max_count() < kNodeValues) {
       // Insertion into the root where the root is smaller that the full node
@@ -2218,6 +2220,8 @@ btree<P>::internal_insert(iterator iter, const value_type &v) {
       rebalance_or_split(&iter);
       ++*mutable_size();
     }
+    iter.node->insert_value(iter.position, copy);
+    return iter;
   } else if (!root()->leaf()) {
     ++*mutable_size();
   }
-- 
2.43.0


From 98a550425deb53b65321877ef6f59aee223232e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 027/102] fix: tlx B+ tree erase by a key of the tree itself
 erased other keys too

---
 STX/tlx/tlx/container/btree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index 098a286..1a4f8d2 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -2392,7 +2392,11 @@ public:
     size_type erase(const key_type& key) {
         size_type c = 0;
 
-        while (erase_one(key))
+        // key may refer to one of the entries erased, which other entries of
+        // the tree then overwrite.
+        const key_type k(key);
+
+        while (erase_one(k))
         {
             ++c;
             if (!allow_duplicates) break;
-- 
2.43.0


From ff2875e0ae19ae8061ebb38d1a32cabebb32ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 028/102] fix: tlx B+ tree insert of one of its own entries
 stored another entry

---
 STX/tlx/tlx/container/btree.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index 1a4f8d2..1928139 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -2048,21 +2048,23 @@ private:
                 }
             }
 
-            // move items and put data item into correct data slot
+            // move items and put data item into correct data slot. The data
+            // item may itself be one of the items that are moved.
+            const value_type item(value);
             TLX_BTREE_ASSERT(slot >= 0 && slot <= leaf->slotuse);
 
             std::copy_backward(
                 leaf->slotdata + slot, leaf->slotdata + leaf->slotuse,
                 leaf->slotdata + leaf->slotuse + 1);
 
-            leaf->slotdata[slot] = value;
+            leaf->slotdata[slot] = item;
             leaf->slotuse++;
 
             if (splitnode && leaf != *splitnode && slot == leaf->slotuse - 1)
             {
                 // special case: the node was split, and the insert is at the
                 // last slot of the old node. then the splitkey must be updated.
-                *splitkey = key;
+                *splitkey = key_of_value::get(item);
             }
 
             return std::pair<iterator, bool>(iterator(leaf, slot), true);
-- 
2.43.0


From 33c841255d31b08f87b98d8d793ba7777e77ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 029/102] fix: DAryAddressableIntHeap::build_heap kept
 reporting the keys of the heap it replaced

---
 STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
index 7329594..a0b3bc5 100644
--- a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
+++ b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
@@ -351,7 +351,8 @@ private:
                 heap_[cur] = std::move(value);
             }
         }
-        // initialize handles_ vector
+        // initialize handles_ vector, forgetting keys of an earlier heap
+        std::fill(handles_.begin(), handles_.end(), not_present());
         handles_.resize(std::max(handles_.size(), static_cast<size_t>(max_key) + 1), not_present());
         for (size_t i = 0; i < heap_.size(); ++i)
             handles_[heap_[i]] = i;
-- 
2.43.0


From af0935eafd6a5d5543740ce96baa1dfc632bdcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 030/102] fix: RadixHeap computed buckets out of range for 8
 and 16 bit keys

---
 STX/tlx/tlx/container/radix_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 05ba7f6..5189c9a 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -288,7 +288,7 @@ public:
         const auto diff = x ^ insertion_limit;
         if (!diff) return 0;
 
-        const auto diff_in_bit = (8 * sizeof(Int) - 1) - clz(diff);
+        const auto diff_in_bit = (8 * sizeof(diff) - 1) - clz(diff);
 
         const auto row = diff_in_bit / radix_bits;
         const auto bucket_in_row = ((x >> (radix_bits * row)) & mask) - row;
-- 
2.43.0


From c1987b8245433e815130b3df7892f82a81e90f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 031/102] fix: RadixHeap assertion failed for the largest key
 below an empty bucket

---
 STX/tlx/tlx/container/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 5189c9a..649dc44 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -621,6 +621,7 @@ protected:
             const ranked_key_type key = Encoder::rank_of_int(key_extract_(x));
             assert(key >= mins_[first_non_empty]);
             assert(first_non_empty == mins_.size() - 1
+                   || buckets_data_[first_non_empty + 1].empty()
                    || key < mins_[first_non_empty + 1]);
             const auto idx = bucket_map_(key, insertion_limit_);
             assert(idx < first_non_empty);
-- 
2.43.0


From 628b2eb7eb3d84db74a1eb14b9a74e655e9ccb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 032/102] fix: LruCacheMap::put of a value taken from the same
 entry read it after it was freed

---
 STX/tlx/tlx/container/lru_cache.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/STX/tlx/tlx/container/lru_cache.hpp b/STX/tlx/tlx/container/lru_cache.hpp
index 95cb643..c06a97d 100644
--- a/STX/tlx/tlx/container/lru_cache.hpp
+++ b/STX/tlx/tlx/container/lru_cache.hpp
@@ -187,15 +187,17 @@ public:
 
     //! put or replace/touch item in LRU cache
     void put(const Key& key, const Value& value) {
-        // first try to find an existing key
+        // insert key into linked list at the front (most recently used), before
+        // removing an existing entry: value may refer to that entry
+        list_.push_front(KeyValuePair(key, value));
+
+        // try to find an existing key
         typename Map::iterator it = map_.find(key);
         if (it != map_.end()) {
             list_.erase(it->second);
             map_.erase(it);
         }
 
-        // insert key into linked list at the front (most recently used)
-        list_.push_front(KeyValuePair(key, value));
         // store iterator to linked list entry in map
         map_.insert(std::make_pair(key, list_.begin()));
     }
-- 
2.43.0


From f45e43abf63f055fab287bc170697a67c2f571d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 033/102] fix: SplayTree::clear left the tree pointing to freed
 nodes

---
 STX/tlx/tlx/container/splay_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index a3fb8a3..cfb1d30 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -272,6 +272,7 @@ public:
     //! free all nodes
     void clear() {
         splay_traverse_postorder([this](Node* n) { delete_node(n); }, root_);
+        root_ = nullptr;
     }
 
     //! check if key exists
-- 
2.43.0


From a7f13b2b85f567dda84f87263bbfb7ba2d020798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 034/102] fix: SplayTree::exists crashed on an empty tree

---
 STX/tlx/tlx/container/splay_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index cfb1d30..05c014a 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -277,6 +277,7 @@ public:
 
     //! check if key exists
     bool exists(const Key& k) {
+        if (root_ == nullptr) return false;
         root_ = splay(k, root_, cmp_);
         return !cmp_(root_->key, k) && !cmp_(k, root_->key);
     }
-- 
2.43.0


From c18c25132e69fce824b856195a282b8bf6a1beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 035/102] fix: splay_erase lost nodes when the tree held
 duplicates of the key

---
 STX/tlx/tlx/container/splay_tree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index 05c014a..1b4ece7 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -185,7 +185,10 @@ Tree * splay_erase(const Key& k, Tree*& t, const Compare& cmp) {
         }
         else {
             Tree* x = splay(k, t->left, cmp);
-            x->right = t->right;
+            // x is the largest node unless there are duplicates of k
+            Tree* y = x;
+            while (y->right != nullptr) y = y->right;
+            y->right = t->right;
             t = x;
         }
         return r;
-- 
2.43.0


From c9c16bb6525f0760475f99df99777be30ce3f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 036/102] fix: RingBuffer::pop_back destroyed the first element
 instead of the last

---
 STX/tlx/tlx/container/ring_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 7eec7c1..5b8e6d2 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -219,8 +219,8 @@ public:
     //! remove element at the end
     void pop_back() {
         assert(!empty());
-        alloc_traits::destroy(alloc_, std::addressof(data_[begin_]));
         --end_ &= mask_;
+        alloc_traits::destroy(alloc_, std::addressof(data_[end_]));
     }
 
     //! reset buffer contents
-- 
2.43.0


From 7ebccb79135656e87c63ff56b79accc6b9cfad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 037/102] fix: RingBuffer::deallocate kept positions and
 capacity of the freed array

---
 STX/tlx/tlx/container/ring_buffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 5b8e6d2..ef23ff9 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -155,6 +155,8 @@ public:
             clear();
             alloc_.deallocate(data_, capacity_);
             data_ = nullptr;
+            begin_ = end_ = 0;
+            capacity_ = 0;
         }
     }
 
-- 
2.43.0


From 5eca488f883df211291440a2a458e63fc03e9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 038/102] fix: StringView::copy ignored the position

---
 STX/tlx/tlx/container/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index efe4614..54e68aa 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -181,7 +181,7 @@ public:
         if (pos > size())
             throw std::out_of_range("StringView::copy");
         size_type rsize = std::min(n, size_ - pos);
-        std::copy(data(), data() + rsize, s);
+        std::copy(data() + pos, data() + pos + rsize, s);
         return rsize;
     }
 
-- 
2.43.0


From cde37c43f6a79abaf289a4d868eb28ad8e287603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 039/102] fix: StringView::compare and rfind stopped at NUL
 bytes

---
 STX/tlx/tlx/container/string_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index 54e68aa..b3d5fdb 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -195,7 +195,8 @@ public:
     //! \{
 
     int compare(StringView x) const noexcept {
-        const int cmp = std::strncmp(ptr_, x.ptr_, std::min(size_, x.size_));
+        const size_type min_size = std::min(size_, x.size_);
+        const int cmp = min_size ? std::memcmp(ptr_, x.ptr_, min_size) : 0;
         return cmp != 0 ? cmp
                : (size_ == x.size_ ? 0 : size_ < x.size_ ? -1 : 1);
     }
@@ -319,7 +320,7 @@ public:
         if (s.size_ == 0u) // an empty string is always found
             return pos;
         for (const char* cur = ptr_ + pos; ; --cur) {
-            if (std::strncmp(cur, s.ptr_, s.size_) == 0)
+            if (std::memcmp(cur, s.ptr_, s.size_) == 0)
                 return cur - ptr_;
             if (cur == ptr_)
                 return npos;
-- 
2.43.0


From 9b7872dcbfda1f772687e35d4745b3d9aaaed3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 040/102] fix: StringView comparison operators ordered bytes
 above 127 differently from compare and std::string

---
 STX/tlx/tlx/container/string_view.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index b3d5fdb..6df4f29 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -242,8 +242,7 @@ public:
     //! Less operator to compare a StringView with another StringView
     //! lexicographically
     bool operator < (const StringView& other) const noexcept {
-        return std::lexicographical_compare(
-            ptr_, ptr_ + size_, other.ptr_, other.ptr_ + other.size_);
+        return compare(other) < 0;
     }
 
     //! Greater than
@@ -506,16 +505,14 @@ bool operator != (const std::string& a, const StringView& b) noexcept {
 //! lexicographically
 static inline
 bool operator < (const StringView& a, const std::string& b) noexcept {
-    return std::lexicographical_compare(
-        a.begin(), a.end(), b.begin(), b.end());
+    return a < StringView(b);
 }
 
 //! less operator to compare a StringView with a std::string
 //! lexicographically
 static inline
 bool operator < (const std::string& a, const StringView& b) noexcept {
-    return std::lexicographical_compare(
-        a.begin(), a.end(), b.begin(), b.end());
+    return StringView(a) < b;
 }
 
 static inline
-- 
2.43.0


From dcd7f9be0cb3035da6818c8a55bfa706e6bf515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 041/102] fix: CountingPtr assignment and reset used a pointer
 that was part of the object just freed

---
 STX/tlx/tlx/counting_ptr.hpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/STX/tlx/tlx/counting_ptr.hpp b/STX/tlx/tlx/counting_ptr.hpp
index c4ce899..22c55fe 100644
--- a/STX/tlx/tlx/counting_ptr.hpp
+++ b/STX/tlx/tlx/counting_ptr.hpp
@@ -134,9 +134,8 @@ public:
     CountingPtr& operator = (const CountingPtr& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        inc_reference(other.ptr_);
-        dec_reference();
-        ptr_ = other.ptr_;
+        // other may be part of the object released here
+        CountingPtr(other).swap(*this);
         return *this;
     }
 
@@ -149,9 +148,8 @@ public:
     operator = (const CountingPtr<Subclass, Deleter>& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        inc_reference(other.ptr_);
-        dec_reference();
-        ptr_ = other.ptr_;
+        // other may be part of the object released here
+        CountingPtr(other).swap(*this);
         return *this;
     }
 
@@ -159,9 +157,8 @@ public:
     CountingPtr& operator = (CountingPtr&& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        dec_reference();
-        ptr_ = other.ptr_;
-        other.ptr_ = nullptr;
+        // other may be part of the object released here
+        CountingPtr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -172,9 +169,8 @@ public:
     CountingPtr& operator = (CountingPtr<Subclass, Deleter>&& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        dec_reference();
-        ptr_ = other.ptr_;
-        other.ptr_ = nullptr;
+        // other may be part of the object released here
+        CountingPtr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -229,8 +225,8 @@ public:
 
     //! release contained pointer, frees object if this is the last reference.
     void reset() {
-        dec_reference();
-        ptr_ = nullptr;
+        // this pointer may be part of the object released here
+        CountingPtr().swap(*this);
     }
 
     //! swap enclosed object with another counting pointer (no reference counts
-- 
2.43.0


From e12cb5011c7786d9091534ef7143370f3e0ed7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 042/102] fix: StackArena of a size not divisible by 16
 advanced past its buffer

---
 STX/tlx/tlx/stack_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/stack_allocator.hpp b/STX/tlx/tlx/stack_allocator.hpp
index dafc02a..7fb3cce 100644
--- a/STX/tlx/tlx/stack_allocator.hpp
+++ b/STX/tlx/tlx/stack_allocator.hpp
@@ -79,6 +79,8 @@ public:
             ptr_ += n;
             if (n % alignment != 0)
                 ptr_ += alignment - n % alignment;
+            // the padding of the last area may not fit
+            if (ptr_ > buf_ + Size) ptr_ = buf_ + Size;
             return r;
         }
         // otherwise fallback to malloc()
-- 
2.43.0


From ff15c013c172d07fdbf7909409f674e8c27d15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 043/102] fix: copies of LruCacheSet and LruCacheMap kept
 iterators into the original's list

---
 STX/tlx/tlx/container/lru_cache.hpp | 36 +++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/STX/tlx/tlx/container/lru_cache.hpp b/STX/tlx/tlx/container/lru_cache.hpp
index c06a97d..c7ddc36 100644
--- a/STX/tlx/tlx/container/lru_cache.hpp
+++ b/STX/tlx/tlx/container/lru_cache.hpp
@@ -55,6 +55,24 @@ public:
         : list_(alloc),
           map_(0, std::hash<Key>(), std::equal_to<Key>(), alloc) { }
 
+    //! copy-constructor: the map has to refer to the new list
+    LruCacheSet(const LruCacheSet& other)
+        : list_(other.list_),
+          map_(0, std::hash<Key>(), std::equal_to<Key>(), other.map_.get_allocator()) {
+        for (ListIterator it = list_.begin(); it != list_.end(); ++it)
+            map_.insert(std::make_pair(*it, it));
+    }
+
+    //! move-constructor: default
+    LruCacheSet(LruCacheSet&&) = default;
+
+    //! copy- and move-assignment
+    LruCacheSet& operator = (LruCacheSet other) {
+        list_.swap(other.list_);
+        map_.swap(other.map_);
+        return *this;
+    }
+
     //! clear LRU
     void clear() {
         list_.clear();
@@ -179,6 +197,24 @@ public:
         : list_(alloc),
           map_(0, std::hash<Key>(), std::equal_to<Key>(), alloc) { }
 
+    //! copy-constructor: the map has to refer to the new list
+    LruCacheMap(const LruCacheMap& other)
+        : list_(other.list_),
+          map_(0, std::hash<Key>(), std::equal_to<Key>(), other.map_.get_allocator()) {
+        for (ListIterator it = list_.begin(); it != list_.end(); ++it)
+            map_.insert(std::make_pair(it->first, it));
+    }
+
+    //! move-constructor: default
+    LruCacheMap(LruCacheMap&&) = default;
+
+    //! copy- and move-assignment
+    LruCacheMap& operator = (LruCacheMap other) {
+        list_.swap(other.list_);
+        map_.swap(other.map_);
+        return *this;
+    }
+
     //! clear LRU
     void clear() {
         list_.clear();
-- 
2.43.0


From b7b084fb23f0873bc2df26bd2bd45a7f802b0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 044/102] fix: tlx::Semaphore::signal() wakes every waiter

With waiters for different amounts notify_one may wake one that cannot
proceed yet, which goes back to sleep, while the one that could is never
woken.
---
 STX/tlx/tlx/semaphore.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/semaphore.hpp b/STX/tlx/tlx/semaphore.hpp
index a661e38..f1f661a 100644
--- a/STX/tlx/tlx/semaphore.hpp
+++ b/STX/tlx/tlx/semaphore.hpp
@@ -44,7 +44,9 @@ public:
     size_t signal() {
         std::unique_lock<std::mutex> lock(mutex_);
         size_t res = ++value_;
-        cv_.notify_one();
+        // waiters may ask for different amounts: wake all, so that one that can
+        // proceed does not sleep on while one that cannot is woken.
+        cv_.notify_all();
         return res;
     }
     //! function increments the semaphore and signals any threads that are
-- 
2.43.0


From f85c74aacec322d08ba858960894c50bec17b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 045/102] fix: tlx::ThreadPool wakes every thread waiting for
 it to finish

Several threads may be in loop_until_empty() or loop_until_terminate(),
with different conditions; notify_one leaves the others asleep for ever.
---
 STX/tlx/tlx/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/thread_pool.cpp b/STX/tlx/tlx/thread_pool.cpp
index 23a91e6..fe932c1 100644
--- a/STX/tlx/tlx/thread_pool.cpp
+++ b/STX/tlx/tlx/thread_pool.cpp
@@ -59,7 +59,7 @@ void ThreadPool::terminate() {
     // wake up all worker threads and let them terminate.
     cv_jobs_.notify_all();
     // notify LoopUntilTerminate in case all threads are idle.
-    cv_finished_.notify_one();
+    cv_finished_.notify_all();
 }
 
 size_t ThreadPool::done() const {
@@ -132,7 +132,7 @@ void ThreadPool::worker(size_t p) {
 
             // relock mutex before signaling condition.
             lock.lock();
-            cv_finished_.notify_one();
+            cv_finished_.notify_all();
         }
     }
 }
-- 
2.43.0


From 6a6d7026b86687fc8fbc7a032e34ed765687278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 046/102] fix: tlx string radix sorts do not read past the
 bucket counts when every string has ended

---
 STX/tlx/tlx/sort/strings/radix_sort.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/STX/tlx/tlx/sort/strings/radix_sort.hpp b/STX/tlx/tlx/sort/strings/radix_sort.hpp
index 537e9ae..b44a575 100644
--- a/STX/tlx/tlx/sort/strings/radix_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/radix_sort.hpp
@@ -95,6 +95,8 @@ struct RadixStep_CE0 {
             while (i < 256) {
                 while (i < 256 && bkt_size[i] == 0)
                     ++i;
+                if (i == 256)
+                    break;
                 bkt += bkt_size[i];
                 if (bkt >= size)
                     break;
@@ -245,6 +247,8 @@ struct RadixStep_CE2 {
             while (i < 256) {
                 while (i < 256 && bkt_size[i] == 0)
                     ++i;
+                if (i == 256)
+                    break;
                 bkt += bkt_size[i];
                 if (bkt >= size)
                     break;
@@ -599,6 +603,8 @@ struct RadixStep_CI2 {
             while (i < 256) {
                 while (i < 256 && bkt_size[i] == 0)
                     ++i;
+                if (i == 256)
+                    break;
                 lbkt += bkt_size[i];
                 if (lbkt >= size)
                     break;
-- 
2.43.0


From 443e81758aa76141fd7f0d881feeb5a7e1c160bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 047/102] fix: tlx sample sort computes LCPs of nested steps
 from the sorted strings

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index f89eba5..fce3d0d 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -207,9 +207,9 @@ template <size_t bktnum, typename Context, typename Classify,
 void ps5_sample_sort_lcp(const Context& ctx, const Classify& classifier,
                          const StringPtr& strptr, size_t depth,
                          const BktSizeType* bkt) {
-    assert(!strptr.flipped());
-
-    const typename StringPtr::StringSet& strset = strptr.active();
+    // the sorted strings are in the original array
+    const typename StringPtr::StringSet& strset =
+        strptr.flipped() ? strptr.shadow() : strptr.active();
     typedef typename Context::key_type key_type;
 
     size_t b = 0;         // current bucket number
-- 
2.43.0


From 1b357da1677344625022270276c2a8391dc6bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 048/102] fix: tlx equal-comparison classifier returns the
 splitter it was asked for

---
 STX/tlx/tlx/sort/strings/sample_sort_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp b/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
index 9278235..5e55a85 100644
--- a/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
+++ b/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
@@ -562,7 +562,7 @@ public:
     //! return a splitter
     key_type get_splitter(unsigned int i) const {
         return splitter_tree_[
-            PerfectTreeCalculations<treebits>::pre_to_levelorder(i)];
+            PerfectTreeCalculations<treebits>::pre_to_levelorder(i + 1)];
     }
 
 private:
-- 
2.43.0


From fa0ecbbc805472ea648ad193c59235e36c802708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 049/102] fix: tlx sample sort does not use its bucket cache
 after quicksort replaced it

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index fce3d0d..a3df246 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -448,10 +448,14 @@ public:
         assert(ss_front_ == 0);
         assert(ss_stack_.size() == 0);
 
-        std::uint16_t* bktcache = reinterpret_cast<std::uint16_t*>(bktcache_.data());
+        // sort_mkqs_cache() may replace the array, hence fetch it each time
+        auto bktcache = [this]() {
+                            return reinterpret_cast<std::uint16_t*>(
+                                bktcache_.data());
+                        };
 
         // sort first level
-        ss_stack_.emplace_back(ctx_, strptr, depth, bktcache);
+        ss_stack_.emplace_back(ctx_, strptr, depth, bktcache());
 
         // step 5: "recursion"
 
@@ -502,7 +506,8 @@ public:
                                 << int(s.splitter_lcp[i / 2] & 0x7F);
 
                         ss_stack_.emplace_back(
-                            ctx_, sp, s.depth_ + (s.splitter_lcp[i / 2] & 0x7F), bktcache);
+                            ctx_, sp, s.depth_ + (s.splitter_lcp[i / 2] & 0x7F),
+                            bktcache());
                     }
                 }
                 // i is odd -> bkt[i] is equal bucket
@@ -540,7 +545,7 @@ public:
                             << i << " size " << bktsize << " lcp keydepth!";
 
                         ss_stack_.emplace_back(
-                            ctx_, sp, s.depth_ + sizeof(key_type), bktcache);
+                            ctx_, sp, s.depth_ + sizeof(key_type), bktcache());
                     }
                 }
             }
-- 
2.43.0


From 38a5bb97b69802324c2c4084644e23c988dfe108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 050/102] fix: tlx::multisequence_partition takes equal
 elements from the first sequences

---
 STX/tlx/tlx/algorithm/multisequence_partition.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/STX/tlx/tlx/algorithm/multisequence_partition.hpp b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
index 5d362b0..1104cda 100644
--- a/STX/tlx/tlx/algorithm/multisequence_partition.hpp
+++ b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
@@ -206,17 +206,16 @@ void multisequence_partition(
         n /= 2;
 
         const value_type* lmax = nullptr; // impossible to avoid the warning?
+        diff_type lmax_seq = 0;
         for (diff_type i = 0; i < m; ++i)
         {
             if (a[i] > 0)
             {
-                if (!lmax)
-                    lmax = &(begin_seqs[i].first[a[i] - 1]);
-                else
+                // max, favor rear sequences
+                if (!lmax || !comp(begin_seqs[i].first[a[i] - 1], *lmax))
                 {
-                    // max, favor rear sequences
-                    if (!comp(begin_seqs[i].first[a[i] - 1], *lmax))
-                        lmax = &(begin_seqs[i].first[a[i] - 1]);
+                    lmax = &(begin_seqs[i].first[a[i] - 1]);
+                    lmax_seq = i;
                 }
             }
         }
@@ -225,7 +224,8 @@ void multisequence_partition(
         {
             diff_type middle = (b[i] + a[i]) / 2;
             if (lmax && middle < seqlen[i] &&
-                comp(begin_seqs[i].first[middle], *lmax))
+                lcomp(SamplePair(begin_seqs[i].first[middle], i),
+                      SamplePair(*lmax, lmax_seq)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0


From 8be75182e9b3bd4bb5c41e0cfe0af9b866e652fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 051/102] fix: tlx parallel multiway merge of only a part of
 the elements

---
 .../algorithm/multiway_merge_splitting.hpp    | 31 ++++++++++++++-----
 .../tlx/algorithm/parallel_multiway_merge.hpp |  6 ++--
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp b/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp
index 56244b7..2617c8f 100644
--- a/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp
+++ b/STX/tlx/tlx/algorithm/multiway_merge_splitting.hpp
@@ -167,6 +167,23 @@ void multiway_merge_sampling_splitting(
                 chunks[slab][static_cast<size_t>(seq)].second = seqs_begin[seq].second;
         }
     }
+
+    if (size == total_size)
+        return;
+
+    // merge only a part: cut all chunks at the end of that part
+    simple_vector<RandomAccessIterator> ends(num_seqs);
+    multisequence_partition(seqs_begin, seqs_end, size, ends.begin(), comp);
+
+    for (size_t slab = 0; slab < num_threads; ++slab)
+    {
+        for (DiffType seq = 0; seq < num_seqs; ++seq)
+        {
+            auto& chunk = chunks[slab][static_cast<size_t>(seq)];
+            chunk.first = std::min(chunk.first, ends[seq]);
+            chunk.second = std::min(chunk.second, ends[seq]);
+        }
+    }
 }
 
 /*!
@@ -225,14 +242,14 @@ void multiway_merge_exact_splitting(
         multisequence_partition(
             seqs_begin, seqs_end,
             ranks[static_cast<size_t>(s + 1)], offsets[s].begin(), comp);
+    }
 
-        if (!tight) // last one also needed and available
-        {
-            offsets[num_threads - 1].resize(num_seqs);
-            multisequence_partition(
-                seqs_begin, seqs_end,
-                size, offsets[num_threads - 1].begin(), comp);
-        }
+    if (!tight) // last one also needed and available
+    {
+        offsets[num_threads - 1].resize(num_seqs);
+        multisequence_partition(
+            seqs_begin, seqs_end,
+            size, offsets[num_threads - 1].begin(), comp);
     }
 
     // for each processor
diff --git a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
index 3b6916b..da499bc 100644
--- a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
+++ b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
@@ -101,11 +101,11 @@ RandomAccessIterator3 parallel_multiway_merge_base(
 
     size_t num_seqs = seqs_ne.size();
 
-    if (total_size == 0 || num_seqs == 0)
+    if (total_size == 0 || num_seqs == 0 || size == 0)
         return target;
 
-    if (static_cast<DiffType>(num_threads) > total_size)
-        num_threads = total_size;
+    if (static_cast<DiffType>(num_threads) > size)
+        num_threads = size;
 
     // thread t will have to merge chunks[iam][0..k - 1]
 
-- 
2.43.0


From e459ec7bba6a610c209742d713a3ccfebc2d4457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 052/102] fix: tlx::parallel_mergesort destroys its temporary
 copies

---
 STX/tlx/tlx/sort/parallel_mergesort.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/STX/tlx/tlx/sort/parallel_mergesort.hpp b/STX/tlx/tlx/sort/parallel_mergesort.hpp
index da7c475..5306b66 100644
--- a/STX/tlx/tlx/sort/parallel_mergesort.hpp
+++ b/STX/tlx/tlx/sort/parallel_mergesort.hpp
@@ -257,6 +257,9 @@ void parallel_sort_mwms_pu(PMWMSSortingData<RandomAccessIterator>* sd,
 
     barrier.wait();
 
+    for (DiffType i = 0; i < length_local; ++i)
+        sd->temporary[iam][i].~ValueType();
+
     operator delete (sd->temporary[iam]);
 }
 
-- 
2.43.0


From 08e1ccedb8d98084e093885d51fb29d9cfbe52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:53 +0000
Subject: [PATCH 053/102] fix: tlx parallel sample sort does not use a step
 after releasing it

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index a3df246..a18d02b 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -1367,10 +1367,11 @@ public:
             ctx_.enqueue(this, strptr_.flip(bkt[i], bktsize), depth_);
         }
 
-        this->substep_notify_done(); // release anonymous subjob handle
-
         if (!strptr_.with_lcp)
             bkt_[0].destroy();
+
+        // release anonymous subjob handle: this may delete the step
+        this->substep_notify_done();
     }
 
     /*------------------------------------------------------------------------*/
-- 
2.43.0


From a0163339a193c1c6fc02be33753ffbbe0cc0a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 054/102] fix: Json parser accepts lower-case digits in the
 second half of a surrogate pair

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 29ddfbc..3ee2cee 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1054,7 +1054,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                     ch2 = 16 * ch2 + first[i] - '0';
                 else if (in_range(first[i], 'A', 'F' + 1))
                     ch2 = 16 * ch2 + first[i] - 'A' + 10;
-                else if (in_range(first[i], 'A', 'F' + 1))
+                else if (in_range(first[i], 'a', 'f' + 1))
                     ch2 = 16 * ch2 + first[i] - 'a' + 10;
                 else
                     return error_at(&first[i]);
-- 
2.43.0


From c48698cbc78d0f0c6c2d723a479a5c6078cf5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 055/102] fix: StringAccum::append_utf8 encodes U+0800-U+7FFF
 in three bytes

---
 MassTree/straccum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/straccum.cc b/MassTree/straccum.cc
index f82c153..3027765 100644
--- a/MassTree/straccum.cc
+++ b/MassTree/straccum.cc
@@ -203,7 +203,7 @@ StringAccum::hard_append_cstr(const char *cstr)
 bool
 StringAccum::append_utf8_hard(int ch)
 {
-    if (ch < 0x8000) {
+    if (ch < 0x800) {
         append(static_cast<char>(0xC0 | (ch >> 6)));
         goto char1;
     } else if (ch < 0x10000) {
-- 
2.43.0


From 810d974ac8e64786a380a72e8898421123e3d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 056/102] fix: Json parser does not look beyond its input in a
 split character

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 3ee2cee..29a6840 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -928,7 +928,7 @@ Json::streaming_parser::consume_string(const uint8_t* first,
             int want = 2 + (*first >= 0xE0) + (*first >= 0xF0);
             int n = last - first < want ? last - first : want;
             if ((n > 1 && unlikely(!in_range(first[1], 0x80, 0xC0)))
-                || (*first >= 0xE0
+                || (n > 1 && *first >= 0xE0
                     && ((*first == 0xE0 && first[1] < 0xA0) /* overlong */
                         || (*first == 0xED && first[1] >= 0xA0) /* surrogate */
                         || (*first == 0xF0 && first[1] < 0x90) /* overlong */
-- 
2.43.0


From df8c7dfa03143ccec8bffa8300f09fadc7727d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 057/102] fix: Json parser accepts the escaped NUL it prints

---
 MassTree/json.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 29a6840..08f4c66 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1004,7 +1004,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                                           const uint8_t* first,
                                           const uint8_t* last) {
     const uint8_t* prev = first;
-    int ch = 0;
+    int ch = -1;
 
     if (first + 1 == last)
         goto incomplete;
@@ -1021,6 +1021,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
     else if (first[1] == 't')
         ch = '\t';
     else if (first[1] == 'u') {
+        ch = 0;
         for (int i = 2; i < 6; ++i) {
             if (first + i == last)
                 goto incomplete;
@@ -1066,7 +1067,9 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
         }
     }
 
-    if (!ch || !sa.append_utf8(ch))
+    if (ch == 0)
+        sa.append('\0');
+    else if (!sa.append_utf8(ch))
         return error_at(&first[1]);
     return first + 2;
 
-- 
2.43.0


From 1548c75bd638630408ee1ecc3812b634a91d0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 058/102] fix: Json::assign_parse skips all white space behind
 the document

---
 MassTree/json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 08f4c66..d9986ba 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -682,8 +682,8 @@ Json::assign_parse(const char* first, const char* last, const String& str)
     using std::swap;
     Json::streaming_parser jsp;
     first = jsp.consume(first, last, str, true);
-    if (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
-                          || *first == '\t'))
+    while (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
+                             || *first == '\t'))
         ++first;
     if (first == last && jsp.success()) {
         swap(jsp.result(), *this);
-- 
2.43.0


From 46b8733a7ff0992507025ebadd3a2be82abf1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 059/102] fix: Json parser replaces the value of a repeated key
 that was an array

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index d9986ba..f6a32af 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -862,7 +862,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         value: {
             Json* jp = current();
-            if (state_ != st_initial && jp->is_a()) {
+            if (state_ != st_initial && state_ != st_object_value && jp->is_a()) {
                 jp->push_back(std::move(j));
                 jp = &jp->back();
             } else
-- 
2.43.0


From 23cc0d4f018de0cf092bd7464c23b68d4e87632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 060/102] fix: Json parser refuses numbers without an integer
 part

---
 MassTree/json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index f6a32af..0bfa021 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1132,8 +1132,10 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         case 1:
             while (first != last && in_range(*first, '0', '9' + 1))
                 ++first;
-        } else
+        } else {
             position = 2;
+            break;
+        }
         /* fallthru */
     case 3:
         if (first != last && *first == '.') {
-- 
2.43.0


From 345caa37858d8135de4dfad6fba1d583459e80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 061/102] fix: Json assignment from a part of the assigned
 value

---
 MassTree/json.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 9238ba3..8138023 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2924,12 +2924,13 @@ inline Json Json::parse(const char *first, const char *last) {
 // Assignment
 
 inline Json& Json::operator=(const Json& x) {
-    if (x.u_.x.type < 0)
-        x.u_.str.ref();
-    else if (x.u_.x.x && (x.u_.x.type == j_array || x.u_.x.type == j_object))
-        x.u_.x.x->ref();
+    rep_type u = x.u_; // x might be part of the value released below
+    if (u.x.type < 0)
+        u.str.ref();
+    else if (u.x.x && (u.x.type == j_array || u.x.type == j_object))
+        u.x.x->ref();
     deref();
-    u_ = x.u_;
+    u_ = u;
     return *this;
 }
 
@@ -3002,9 +3003,11 @@ inline Json& Json::operator=(bool x) {
 }
 
 inline Json& Json::operator=(const String& x) {
+    rep_type u;
+    u.str = x.internal_rep(); // x might be part of the value released below
+    u.str.ref();
     deref();
-    u_.str = x.internal_rep();
-    u_.str.ref();
+    u_ = u;
     return *this;
 }
 /** @endcond never */
-- 
2.43.0


From 9bb5bd2e999a365985feaf0be8c516ce3e04aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 062/102] fix: Json element assignment copies its source before
 growing the container

---
 MassTree/json.hh | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 8138023..4844d24 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -1333,16 +1333,18 @@ class Json_object_proxy : public Json_proxy_base<Json_object_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json copy(x); // value() might move or release x
+        return value() = std::move(copy);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json copy(std::move(x));
+        return value() = std::move(copy);
     }
     Json& operator=(const Json_object_proxy<T>& x) {
-        return value() = x.cvalue();
+        return *this = x.cvalue();
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return *this = x.cvalue();
     }
     Json_object_proxy(T& ref, const String& key)
         : base_(ref), key_(key) {
@@ -1361,16 +1363,18 @@ class Json_object_str_proxy : public Json_proxy_base<Json_object_str_proxy<T> >
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json copy(x); // value() might move or release x
+        return value() = std::move(copy);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json copy(std::move(x));
+        return value() = std::move(copy);
     }
     Json& operator=(const Json_object_str_proxy<T>& x) {
-        return value() = x.cvalue();
+        return *this = x.cvalue();
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return *this = x.cvalue();
     }
     Json_object_str_proxy(T& ref, Str key)
         : base_(ref), key_(key) {
@@ -1389,16 +1393,18 @@ class Json_array_proxy : public Json_proxy_base<Json_array_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json copy(x); // value() might move or release x
+        return value() = std::move(copy);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json copy(std::move(x));
+        return value() = std::move(copy);
     }
     Json& operator=(const Json_array_proxy<T>& x) {
-        return value() = x.cvalue();
+        return *this = x.cvalue();
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return *this = x.cvalue();
     }
     Json_array_proxy(T& ref, int key)
         : base_(ref), key_(key) {
@@ -2319,9 +2325,7 @@ inline Json& Json::set(const String& key, Json value) {
 /** @overload */
 template <typename P>
 inline Json& Json::set(const String& key, const Json_proxy_base<P>& value) {
-    uniqueify_object(true);
-    ojson()->get_insert(key) = value.cvalue();
-    return *this;
+    return set(key, Json(value.cvalue()));
 }
 
 /** @brief Remove the value of @a key from an object Json.
@@ -2523,8 +2527,7 @@ inline Json& Json::push_back(Json x) {
 
 /** @overload */
 template <typename P> inline Json& Json::push_back(const Json_proxy_base<P>& x) {
-    new(uniqueify_array_insert(false, -1)) Json(x.cvalue());
-    return *this;
+    return push_back(Json(x.cvalue()));
 }
 
 /** @brief Remove the last element from an array.
@@ -2567,10 +2570,7 @@ inline Json::array_iterator Json::insert(array_iterator position, Json x) {
 
 /** @overload */
 template <typename P> inline Json::array_iterator Json::insert(array_iterator position, const Json_proxy_base<P>& x) {
-    precondition(position >= abegin() && position <= aend());
-    size_type pos = position - abegin();
-    new(uniqueify_array_insert(false, pos)) Json(x.cvalue());
-    return abegin() + pos;
+    return insert(position, Json(x.cvalue()));
 }
 
 inline Json::array_iterator Json::erase(array_iterator position) {
-- 
2.43.0


From 53311929b453a39ede659ed27d594cc903cf4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 063/102] fix: Json += and -= use their operand

---
 MassTree/json.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 4844d24..5b63556 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -3096,18 +3096,18 @@ inline Json& Json::operator-=(double x) {
 }
 inline Json& Json::operator+=(const Json& x) {
     if (x.is_unsigned())
-        add(u_.u.x);
+        add(x.u_.u.x);
     else if (x.is_int())
-        add(u_.i.x);
+        add(x.u_.i.x);
     else if (!x.is_null())
         add(x.as_d());
     return *this;
 }
 inline Json& Json::operator-=(const Json& x) {
     if (x.is_unsigned())
-        subtract(u_.u.x);
+        subtract(x.u_.u.x);
     else if (x.is_int())
-        subtract(u_.i.x);
+        subtract(x.u_.i.x);
     else if (!x.is_null())
         subtract(x.as_d());
     return *this;
-- 
2.43.0


From 3cd343eeefbee32f8ed4c56530fd583c02086e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 064/102] fix: Json erase and unset on an object that never had
 a key

---
 MassTree/json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 0bfa021..a89508a 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From 5a9f96e77df7ff9163111457fbf6864e08fb2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 065/102] fix: msgpack::parser reads vectors

---
 MassTree/msgpack.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index 8b84e34..8a50e88 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -610,7 +610,7 @@ parser& parser::operator>>(::std::vector<T>& x) {
     }
     for (; sz != 0; --sz) {
         x.push_back(T());
-        parse(x.back());
+        *this >> x.back();
     }
     return *this;
 }
-- 
2.43.0


From 7c40f9893ff528a57d011febf0ab548e43862012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:39 +0000
Subject: [PATCH 066/102] fix: msgpack::parser::skip_primitives skips 64-bit
 numbers

---
 MassTree/msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index 8a50e88..7380735 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -475,6 +475,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From fcf1e3a45042e1e628c9448818ae22846fcd7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:05 +0000
Subject: [PATCH 067/102] fix: msgpack streaming parser refuses lengths of 2^31
 and above

---
 MassTree/msgpack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MassTree/msgpack.cc b/MassTree/msgpack.cc
index 4b8859b..ace113b 100644
--- a/MassTree/msgpack.cc
+++ b/MassTree/msgpack.cc
@@ -69,6 +69,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixmap;
             ++first;
         map:
+            if (n < 0) // length beyond every object
+                goto error;
             if (jx->is_o())
                 jx->clear();
             else
@@ -77,6 +79,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixarray;
             ++first;
         array:
+            if (n < 0)
+                goto error;
             if (!jx->is_a())
                 *jx = Json::make_array_reserve(n);
             jx->resize(n);
@@ -84,6 +88,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixstr;
             ++first;
         raw:
+            if (n < 0)
+                goto error;
             if (last - first < n) {
                 str_ = String(first, last);
                 stack_.push_back(selem{0, n});
-- 
2.43.0


From aa30c9c288c89921cea2712d5df801aa2b04244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 068/102] verification hook: FBTree node sizes from the command
 line

---
 FBTree/config.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/FBTree/config.h b/FBTree/config.h
index 5f2687e..4e0e905 100644
--- a/FBTree/config.h
+++ b/FBTree/config.h
@@ -26,6 +26,7 @@ namespace FeatureBTree {
 enum CompareMode { SIMD512, SIMD256, SIMD128 };
 
 struct Config {
+#ifndef INDEXRESEARCH_VERIF_FBT_NODE
   /* manipulation mode of feature comparison and fingerprint comparison */
   static constexpr CompareMode kCmpMode = SIMD256;
   /* the size of feature in inner node 0,1,2,3 ... , only valid for
@@ -34,6 +35,12 @@ struct Config {
   /* the number of keys in inner/leaf node, 16/32/64 */
   static constexpr int kInnerSize = 64;
   static constexpr int kLeafSize = 64;
+#else // verification: small nodes, chosen on the command line
+  static constexpr CompareMode kCmpMode = INDEXRESEARCH_VERIF_FBT_NODE == 16 ? SIMD128 : SIMD256;
+  static constexpr int kFeatureSize = INDEXRESEARCH_VERIF_FBT_FEATURES;
+  static constexpr int kInnerSize = INDEXRESEARCH_VERIF_FBT_NODE;
+  static constexpr int kLeafSize = INDEXRESEARCH_VERIF_FBT_NODE;
+#endif
   /* the merge threshold, if the number of keys in current node
    * and its sibling node is lss than MERGE_SIZE, merge the two node */
   static constexpr int kInnerMergeSize = kInnerSize / 2;
@@ -50,7 +57,11 @@ struct Config {
    * kSpinInc times to ensure a thread does not wait too long */
   static constexpr int kSpinInit = 3, kSpinInc = 2;
   /* store anchors in contiguous memory blocks, not scattered */
+#ifndef INDEXRESEARCH_VERIF_FBT_EXTENT
   static constexpr bool kExtentOpt = false;
+#else
+  static constexpr bool kExtentOpt = INDEXRESEARCH_VERIF_FBT_EXTENT;
+#endif
   /* the initial extent size, valid if kExtentOpt(true) */
   static constexpr int kExtentSize = 2048;
 };
-- 
2.43.0


From 0d8595da1bba30990acb8320fee2e4cd9170f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 069/102] fix: FBTree::begin() does not compile (private
 members of the iterator)

---
 FBTree/fbtree.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index 93811cb..aeb4962 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -465,11 +465,11 @@ class alignas(64) FBTree {
     assert(epoch_->guarded());
     LeafNode* node = leaf(root_track_[0]);
     assert(node != nullptr);
-    iterator it(node, 0, nullptr, 0);
-    it.version_ = control(node)->begin_read();
-    std::tie(it.kv_, it.pos_, it.version_) =
-      node->access(nullptr, 0, it.version_);
-    return it;
+    uint64_t version = control(node)->begin_read();
+    KVPair* kv;
+    int pos;
+    std::tie(kv, pos, version) = node->access(nullptr, 0, version);
+    return iterator(node, version, kv, pos);
   }
 
   iterator lower_bound(K key) {
@@ -1001,11 +1001,11 @@ class alignas(64) FBTree<String, V> {
     assert(epoch_->guarded());
     LeafNode* node = leaf(root_track_[0]);
     assert(node != nullptr);
-    iterator it(node, 0, nullptr, 0);
-    it.version_ = control(node)->begin_read();
-    std::tie(it.kv_, it.pos_, it.version_) =
-      node->access(nullptr, 0, it.version_);
-    return it;
+    uint64_t version = control(node)->begin_read();
+    KVPair* kv;
+    int pos;
+    std::tie(kv, pos, version) = node->access(nullptr, 0, version);
+    return iterator(node, version, kv, pos);
   }
 
   iterator lower_bound(String& key) {
-- 
2.43.0


From 84f89365d54524eb1cefec4ebf065c382bf94749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 070/102] fix: FBTree upper_bound of the last key of a leaf
 reads an unused slot

---
 FBTree/lnode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FBTree/lnode.h b/FBTree/lnode.h
index eaa7425..65f4211 100644
--- a/FBTree/lnode.h
+++ b/FBTree/lnode.h
@@ -441,7 +441,7 @@ class alignas(Config::kAlignSize) LeafNode {
       if(kv != nullptr && key == kv->key) {
         // find the key in current node
         if(upper) {
-          if(idx + 1 >= nkey) std::make_pair(nullptr, 0);
+          if(idx + 1 >= nkey) return std::make_pair(nullptr, 0);
           kv = kvs_[idx + 1].load(load_order);
           return std::make_pair(kv, idx + 1);
         }
@@ -921,7 +921,7 @@ class alignas(Config::kAlignSize) LeafNode<String, V> {
       if(kv != nullptr && key == kv->key) {
         // find the key in current node
         if(upper) {
-          if(idx + 1 >= nkey) std::make_pair(nullptr, 0);
+          if(idx + 1 >= nkey) return std::make_pair(nullptr, 0);
           kv = kvs_[idx + 1].load(load_order);
           return std::make_pair(kv, idx + 1);
         }
-- 
2.43.0


From 86c058cee6e6addcae3fc64751b2774c2bdd1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 071/102] fix: FBTree iterator reads unused slots of a leaf

---
 FBTree/lnode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FBTree/lnode.h b/FBTree/lnode.h
index 65f4211..8a565f8 100644
--- a/FBTree/lnode.h
+++ b/FBTree/lnode.h
@@ -137,7 +137,7 @@ class alignas(Config::kAlignSize) LeafNode {
   KVPair* access(int pos) {
     if(pos < 0 || pos >= kNodeSize) return nullptr;
     uint64_t mask = 0x01ul << pos;
-    if(mask & bitmap_ == 0) return nullptr;
+    if((mask & bitmap_) == 0) return nullptr;
     return kvs_[pos].load(load_order);
   }
 
@@ -596,7 +596,7 @@ class alignas(Config::kAlignSize) LeafNode<String, V> {
   KVPair* access(int pos) {
     if(pos < 0 || pos >= kNodeSize) return nullptr;
     uint64_t mask = 0x01ul << pos;
-    if(mask & bitmap_ == 0) return nullptr;
+    if((mask & bitmap_) == 0) return nullptr;
     return kvs_[pos].load(load_order);
   }
 
-- 
2.43.0


From 18278158f8f016d3337875f1747b697a98d7af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:38 +0000
Subject: [PATCH 072/102] fix: FBTree merging two inner nodes that keep no
 separator reads before the arrays

---
 FBTree/inode.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FBTree/inode.h b/FBTree/inode.h
index 55dcd66..51c4516 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -446,7 +446,8 @@ class alignas(Config::kAlignSize) InnerNode {
         src = rnode->children_ + 1, dst = children_ + knum_;
         memmove64(src, dst, rnkey ? rnkey - 1 : 0, true);
         knum_ += rnkey - 1, rnode->knum_ = 0;
-        memory_shrink();
+        if(knum_ == 0) plen_ = 0; // no separator left
+        else memory_shrink();
 
         // set meta information
         if(rnkey != 0) next_ = rnode->next_;
@@ -1063,7 +1064,8 @@ class alignas(Config::kAlignSize) InnerNode<String> {
           memmove64(src, dst, rnkey ? rnkey - 1 : 0, true);
           knum_ += rnkey - 1, rnode->knum_ = 0;
         }
-        content_rebuild();
+        if(knum_ == 0) plen_ = 0; // no anchor left
+        else content_rebuild();
 
         // set meta information
         if(rnkey != 0) next_ = rnode->next_;
-- 
2.43.0


From 3654f2ed4a3b2c2d16bf14b3d9dbf96cf6d3755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:29 +0000
Subject: [PATCH 073/102] fix: FBTree compares short keys with an unset prefix
 below nodes with a long prefix

---
 FBTree/inode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FBTree/inode.h b/FBTree/inode.h
index 51c4516..0a818e7 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -866,7 +866,8 @@ class alignas(Config::kAlignSize) InnerNode<String> {
     plen_ = common_prefix(fk, fs, lk, ls);
     if(!kExtentOpt) huge_ = anchors_[0];
     else extent_->huge(anchors_[0]);
-    if(plen_ <= kEmbedPrSize) { memcpy(tiny_, fk, plen_); }
+    // a short key is compared with tiny_ even if the whole prefix can't be embedded
+    memcpy(tiny_, fk, std::min(plen_, kEmbedPrSize + 0));
 
     for(int kid = 0; kid < knum_; kid++) {
       for(int fid = 0; fid < kFeatureSize; fid++) {
-- 
2.43.0


From 25f64cba416729f2416be679d404573b75c9e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:26 +0000
Subject: [PATCH 074/102] fix: FBTree loses string keys that continue an anchor
 with zero bytes

---
 FBTree/inode.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/FBTree/inode.h b/FBTree/inode.h
index 0a818e7..b892f58 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -795,10 +795,9 @@ class alignas(Config::kAlignSize) InnerNode<String> {
       sep = anchors_[mid]->str + cmps;
       seps = anchors_[mid]->len - cmps;
 
-      if(seps < 0) return mid;
-      // current node has been modified, retry
-
-      cmp = compare(kstr, ks, sep, seps);
+      // the anchor ends within the features, which are padded with zero bytes: the key
+      // continues with zero bytes and is greater (or current node has been modified, retry)
+      cmp = seps < 0 ? 1 : compare(kstr, ks, sep, seps);
       if(cmp < 0) { hid = mid; }
       else if(cmp == 0) return mid;
       else { lid = mid + 1; }
-- 
2.43.0


From d320b4a1ba3d1bef3d458d1236d3064b2aaf07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 075/102] fix: FBTree retires nodes and anchor keys that new
 operations can still reach

---
 FBTree/fbtree.h | 9 ++++++---
 FBTree/inode.h  | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index aeb4962..18fa5dd 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -352,7 +352,7 @@ class alignas(64) FBTree {
 
     bool up = false; // need to update upper level key
     while(merged || up) {
-      epoch_->retire(merged);
+      void* dead = merged; // retired when no new operation can reach it
       rootid += 1;
 
       if(!path_stack.empty()) {
@@ -374,6 +374,7 @@ class alignas(64) FBTree {
 
       if(merged) merged = inner(work)->remove(mid, up, index);
       else up = inner(work)->anchor_update(mid, index);
+      if(dead) epoch_->retire(dead);
 
       if(work == root_) { // work has been latched
         merged = nullptr, up = false;
@@ -829,11 +830,11 @@ class alignas(64) FBTree<String, V> {
     void* merged, * next;
     String* mid;
     KVPair* kv = leaf(current)->remove(key, merged, mid);
-    if(merged) epoch_->retire(mid); // anchor keys are only store in leaf nodes
+    String* dead_key = merged ? mid : nullptr; // anchor keys are only store in leaf nodes
 
     bool up = false; // need to update upper level key
     while(merged || up) {
-      epoch_->retire(merged);
+      void* dead = merged; // retired when no new operation can reach it
       rootid += 1;
 
       if(!path_stack.empty()) {
@@ -855,6 +856,7 @@ class alignas(64) FBTree<String, V> {
 
       if(merged) merged = inner(work)->remove(mid, up, index, epoch_);
       else up = inner(work)->anchor_update(mid, index, epoch_);
+      if(dead) epoch_->retire(dead);
 
       if(work == root_) { // work has been latched
         merged = nullptr, up = false;
@@ -874,6 +876,7 @@ class alignas(64) FBTree<String, V> {
     }
 
     unlatch_exclusive(current);
+    if(dead_key) epoch_->retire(dead_key); // inner nodes don't refer to it any more
     return kv;
   }
 
diff --git a/FBTree/inode.h b/FBTree/inode.h
index b892f58..a004985 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -831,8 +831,9 @@ class alignas(Config::kAlignSize) InnerNode<String> {
         assert(anchors_[kid] != nullptr);
       }
       if(knum_ > 0) ext->huge(anchors_[0]);
-      epoch->retire(extent_);
+      Extent* old = extent_;
       extent_ = ext;
+      epoch->retire(old);
     }
   }
 
-- 
2.43.0


From 876cefcc3df6dca2301eb6872d3649bdd9a51799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:59 +0000
Subject: [PATCH 076/102] fix: FBTree readers follow a torn sibling link of a
 leaf that is being merged

---
 FBTree/fbtree.h | 54 +++++++++++++++++++++++++++----------------------
 FBTree/lnode.h  | 20 +++++++++---------
 2 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index 18fa5dd..e3fdddd 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -120,6 +120,18 @@ class alignas(64) FBTree {
     }
   }
 
+  // begin reading the leaf that covers key, node is the leaf where the search starts
+  uint64_t begin_leaf(K key, void*& node) {
+    uint64_t version = control(node)->begin_read();
+    void* next;
+    while(leaf(node)->to_sibling(key, next)) {
+      // next is only valid if the leaf hasn't been merged meanwhile
+      if(control(node)->end_read(version)) node = next;
+      version = control(node)->begin_read();
+    }
+    return version;
+  }
+
   iterator bound(K key, bool upper) {
     // true for upper_bound, false for lower_bound
     assert(epoch_->guarded());
@@ -139,10 +151,7 @@ class alignas(64) FBTree {
       bool unordered = false;
 
       do {
-        version = control(node)->begin_read();
-        while(leaf(node)->to_sibling(key, node)) {
-          version = control(node)->begin_read();
-        }
+        version = begin_leaf(key, node);
         if(!control(node)->ordered()) {
           unordered = true;
           break;
@@ -410,10 +419,7 @@ class alignas(64) FBTree {
 
     uint64_t version;
     do {
-      version = control(node)->begin_read();
-      while(leaf(node)->to_sibling(kv->key, node)) {
-        version = control(node)->begin_read();
-      }
+      version = begin_leaf(kv->key, node);
       KVPair* old = leaf(node)->update(kv);
       if(old != nullptr) return old; // update succeeded
     } while(!control(node)->end_read(version));
@@ -451,10 +457,7 @@ class alignas(64) FBTree {
     uint64_t version;
     KVPair* kv;
     do {
-      version = control(node)->begin_read();
-      while(leaf(node)->to_sibling(key, node)) {
-        version = control(node)->begin_read();
-      }
+      version = begin_leaf(key, node);
       kv = leaf(node)->lookup(key);
       if(kv != nullptr) return kv; // find it
     } while(!control(node)->end_read(version));
@@ -576,6 +579,18 @@ class alignas(64) FBTree<String, V> {
     }
   }
 
+  // begin reading the leaf that covers key, node is the leaf where the search starts
+  uint64_t begin_leaf(String& key, void*& node, Control* parent, uint64_t pversion) {
+    uint64_t version = control(node)->begin_read();
+    void* next;
+    while(leaf(node)->to_sibling(key, next, parent, pversion)) {
+      // next is only valid if the leaf hasn't been merged meanwhile
+      if(control(node)->end_read(version)) node = next;
+      version = control(node)->begin_read();
+    }
+    return version;
+  }
+
   iterator bound(String& key, bool upper) {
     // true for upper_bound, false for lower_bound
     assert(epoch_->guarded());
@@ -596,10 +611,7 @@ class alignas(64) FBTree<String, V> {
       bool unordered = false;
 
       do {
-        version = control(node)->begin_read();
-        while(leaf(node)->to_sibling(key, node, parent, pversion)) {
-          version = control(node)->begin_read();
-        }
+        version = begin_leaf(key, node, parent, pversion);
         if(!control(node)->ordered()) {
           unordered = true;
           break;
@@ -917,10 +929,7 @@ class alignas(64) FBTree<String, V> {
     uint64_t version;
     KVPair* old;
     do {
-      version = control(node)->begin_read();
-      while(leaf(node)->to_sibling(kv->key, node, parent, pversion)) {
-        version = control(node)->begin_read();
-      }
+      version = begin_leaf(kv->key, node, parent, pversion);
       old = leaf(node)->update(kv);
       if(old != nullptr) return old; // update succeeded
     } while(!control(node)->end_read(version));
@@ -969,10 +978,7 @@ class alignas(64) FBTree<String, V> {
     uint64_t version;
     KVPair* kv;
     do {
-      version = control(node)->begin_read();
-      while(leaf(node)->to_sibling(key, node, parent, pversion)) {
-        version = control(node)->begin_read();
-      }
+      version = begin_leaf(key, node, parent, pversion);
       kv = leaf(node)->lookup(key);
       if(kv != nullptr) return kv; // find it
     } while(!control(node)->end_read(version));
diff --git a/FBTree/lnode.h b/FBTree/lnode.h
index 8a565f8..f193e4d 100644
--- a/FBTree/lnode.h
+++ b/FBTree/lnode.h
@@ -118,13 +118,13 @@ class alignas(Config::kAlignSize) LeafNode {
           rnode->bitmap_ = 0;
 
           // set meta information
-          high_key_ = rnode->high_key_;
-          sibling_ = rnode->sibling_;
-          rnode->sibling_ = this;
-
-          if(!rnode->control_.has_sibling()) {
+          if(rnode->control_.has_sibling()) {
+            high_key_ = rnode->high_key_;
+            sibling_ = rnode->sibling_;
+          } else { // high_key_ and sibling_ may still be read by other threads
             control_.clear_sibling();
           }
+          rnode->sibling_ = this;
 
           rnode->control_.set_delete();
           rnode->control_.update_version();// inform lookup thread
@@ -577,13 +577,13 @@ class alignas(Config::kAlignSize) LeafNode<String, V> {
           rnode->bitmap_ = 0;
 
           // set meta information
-          high_key_ = rnode->high_key_;
-          sibling_ = rnode->sibling_;
-          rnode->sibling_ = this;
-
-          if(!rnode->control_.has_sibling()) {
+          if(rnode->control_.has_sibling()) {
+            high_key_ = rnode->high_key_;
+            sibling_ = rnode->sibling_;
+          } else { // high_key_ and sibling_ may still be read by other threads
             control_.clear_sibling();
           }
+          rnode->sibling_ = this;
 
           rnode->control_.set_delete();
           rnode->control_.update_version();// inform lookup thread
-- 
2.43.0


From 5c44bcb80129dbdabe35747d9416571029d1ad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:46 +0000
Subject: [PATCH 077/102] fix: FBTree iterators miss keys that a concurrent
 merge moves into the current leaf

---
 FBTree/fbtree.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/FBTree/fbtree.h b/FBTree/fbtree.h
index e3fdddd..d509161 100644
--- a/FBTree/fbtree.h
+++ b/FBTree/fbtree.h
@@ -72,7 +72,13 @@ class alignas(64) FBTree {
 
       // if we can't get the next kv in current node, go to its sibling node
       while(next == nullptr) {
-        node = (LeafNode*) (node->sibling());
+        LeafNode* sibling = (LeafNode*) (node->sibling());
+        // current node has changed since it turned out to have no next kv, look again
+        if(!((Control*) node)->end_read(version)) {
+          std::tie(next, pos, version) = node->access(kv_, 0, 0);
+          continue;
+        }
+        node = sibling;
         if(node == nullptr) break;
 
         // first try to optimistically access the first kv in sibling
@@ -180,8 +186,12 @@ class alignas(64) FBTree {
     // because high_key is never removed unless merge,
     // so the boundary kv may be on the sibling node
     while(kv == nullptr) {
-      node = leaf(node)->sibling();
-      if(node == nullptr) break;
+      void* sibling = leaf(node)->sibling();
+      // unless the node has changed since it turned out to have no boundary kv
+      if(control(node)->end_read(version)) {
+        node = sibling;
+        if(node == nullptr) break;
+      }
       // if kv is null, however node has sibling
       get_bound();
     }
@@ -531,7 +541,13 @@ class alignas(64) FBTree<String, V> {
 
       // if we can't get the next kv in current node, go to its sibling node
       while(next == nullptr) {
-        node = (LeafNode*) (node->sibling());
+        LeafNode* sibling = (LeafNode*) (node->sibling());
+        // current node has changed since it turned out to have no next kv, look again
+        if(!((Control*) node)->end_read(version)) {
+          std::tie(next, pos, version) = node->access(kv_, 0, 0);
+          continue;
+        }
+        node = sibling;
         if(node == nullptr) break;
 
         // first try to optimistically access the first kv in sibling
@@ -640,8 +656,12 @@ class alignas(64) FBTree<String, V> {
     // because high_key is never removed unless merge,
     // so the boundary kv may be on the sibling node
     while(kv == nullptr) {
-      node = leaf(node)->sibling();
-      if(node == nullptr) break;
+      void* sibling = leaf(node)->sibling();
+      // unless the node has changed since it turned out to have no boundary kv
+      if(control(node)->end_read(version)) {
+        node = sibling;
+        if(node == nullptr) break;
+      }
       // if kv is null, however node has sibling
       get_bound();
     }
-- 
2.43.0


From 4ee27c1acad8b3a22aef5790f775b8196cc8e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:48 +0000
Subject: [PATCH 078/102] fix: FBTree lookup aborts in an inner node that is
 losing its last separator

---
 FBTree/inode.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/FBTree/inode.h b/FBTree/inode.h
index a004985..4f0a187 100644
--- a/FBTree/inode.h
+++ b/FBTree/inode.h
@@ -1171,10 +1171,12 @@ class alignas(Config::kAlignSize) InnerNode<String> {
           } else { idx = kBitCnt - countl_zero(mask); }
         } else {
           // can't determine jump to which child just using features
-          assert(eqmask != 0);
-          int hid = kBitCnt - countl_zero(eqmask);
-          int lid = index_least1(eqmask);
-          idx = suffix_bs(key, plen + cmps, lid, hid);
+          if(eqmask == 0) { idx = 0; } // no separator left, or modified by other threads
+          else {
+            int hid = kBitCnt - countl_zero(eqmask);
+            int lid = index_least1(eqmask);
+            idx = suffix_bs(key, plen + cmps, lid, hid);
+          }
         }
 
         if(branch_unlikely(idx == knum_)) {
-- 
2.43.0


From 943b24deace90e8226d6e7624dca89d3ef45d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 079/102] fix: tlx::split with a string separator misses one at
 the end and overlapping ones

---
 STX/tlx/tlx/string/split.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/string/split.cpp b/STX/tlx/tlx/string/split.cpp
index a8edf88..0fc7184 100644
--- a/STX/tlx/tlx/string/split.cpp
+++ b/STX/tlx/tlx/string/split.cpp
@@ -124,7 +124,7 @@ std::vector<std::string>& split(
 
     std::string::const_iterator it = str.begin(), last = it;
 
-    for ( ; it + sep_size < str.end(); ++it)
+    while (sep_size <= static_cast<size_t>(str.end() - it))
     {
         if (std::equal(sep, sep + sep_size, it))
         {
@@ -135,7 +135,12 @@ std::vector<std::string>& split(
             }
 
             into->emplace_back(last, it);
-            last = it + sep_size;
+            it += sep_size;
+            last = it;
+        }
+        else
+        {
+            ++it;
         }
     }
 
-- 
2.43.0


From 47014439b69d5da5954de4aa4dcb1d0cf7298739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 080/102] fix: tlx::equal_icase(string, char*) is false for
 equal strings

---
 STX/tlx/tlx/string/equal_icase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/equal_icase.cpp b/STX/tlx/tlx/string/equal_icase.cpp
index a45f44c..a9db162 100644
--- a/STX/tlx/tlx/string/equal_icase.cpp
+++ b/STX/tlx/tlx/string/equal_icase.cpp
@@ -38,7 +38,7 @@ bool equal_icase(const std::string& a, const char* b) {
     while (ai != a.end() && *b != 0 && to_lower(*ai) == to_lower(*b))
         ++ai, ++b;
 
-    return ai == a.end() && *b != 0;
+    return ai == a.end() && *b == 0;
 }
 
 bool equal_icase(const std::string& a, const std::string& b) {
-- 
2.43.0


From e926db38dad7107884a492f732b2c498e93bf002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 081/102] fix: tlx::compare_icase orders a proper prefix after
 the longer string

---
 STX/tlx/tlx/string/compare_icase.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/STX/tlx/tlx/string/compare_icase.cpp b/STX/tlx/tlx/string/compare_icase.cpp
index 881bcd5..2dce6ca 100644
--- a/STX/tlx/tlx/string/compare_icase.cpp
+++ b/STX/tlx/tlx/string/compare_icase.cpp
@@ -27,8 +27,8 @@ int compare_icase(const char* a, const char* b) {
         else return +1;
     }
 
-    if (*a == 0 && *b != 0) return +1;
-    else if (*a != 0 && *b == 0) return -1;
+    if (*a == 0 && *b != 0) return -1;
+    else if (*a != 0 && *b == 0) return +1;
     else return 0;
 }
 
@@ -46,8 +46,8 @@ int compare_icase(const char* a, const std::string& b) {
         else return +1;
     }
 
-    if (*a == 0 && bi != b.end()) return +1;
-    else if (*a != 0 && bi == b.end()) return -1;
+    if (*a == 0 && bi != b.end()) return -1;
+    else if (*a != 0 && bi == b.end()) return +1;
     else return 0;
 }
 
@@ -64,8 +64,8 @@ int compare_icase(const std::string& a, const char* b) {
         else return +1;
     }
 
-    if (ai == a.end() && *b != 0) return +1;
-    else if (ai != a.end() && *b == 0) return -1;
+    if (ai == a.end() && *b != 0) return -1;
+    else if (ai != a.end() && *b == 0) return +1;
     else return 0;
 }
 
@@ -83,8 +83,8 @@ int compare_icase(const std::string& a, const std::string& b) {
         else return +1;
     }
 
-    if (ai == a.end() && bi != b.end()) return +1;
-    else if (ai != a.end() && bi == b.end()) return -1;
+    if (ai == a.end() && bi != b.end()) return -1;
+    else if (ai != a.end() && bi == b.end()) return +1;
     else return 0;
 }
 
-- 
2.43.0


From 561dafff87dc1423107f6f0c00d884c287155df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 082/102] fix: tlx::bitdump of no bytes throws

---
 STX/tlx/tlx/string/bitdump.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/string/bitdump.cpp b/STX/tlx/tlx/string/bitdump.cpp
index 8133e49..ab83e48 100644
--- a/STX/tlx/tlx/string/bitdump.cpp
+++ b/STX/tlx/tlx/string/bitdump.cpp
@@ -20,6 +20,7 @@ std::string bitdump_8_msb(const void* const data, size_t size) {
         static_cast<const unsigned char*>(data);
 
     std::string out;
+    if (size == 0) return out;
     out.resize(size * 9 - 1);
 
     std::string::iterator oi = out.begin();
@@ -61,6 +62,7 @@ std::string bitdump_8_lsb(const void* const data, size_t size) {
         static_cast<const unsigned char*>(data);
 
     std::string out;
+    if (size == 0) return out;
     out.resize(size * 9 - 1);
 
     std::string::iterator oi = out.begin();
-- 
2.43.0


From a4c66821b38555500bff2fae135502999bf80710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 083/102] fix: tlx::less_icase_desc is not a strict ordering

---
 STX/tlx/tlx/string/less_icase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/less_icase.hpp b/STX/tlx/tlx/string/less_icase.hpp
index 64d4d9b..25ef147 100644
--- a/STX/tlx/tlx/string/less_icase.hpp
+++ b/STX/tlx/tlx/string/less_icase.hpp
@@ -47,7 +47,7 @@ struct less_icase_asc {
 //! std::map, etc.
 struct less_icase_desc {
     inline bool operator () (const std::string& a, const std::string& b) const {
-        return !less_icase(a, b);
+        return less_icase(b, a);
     }
 };
 
-- 
2.43.0


From 1a92cc1338118c528429064f5adaaa7d90b2240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 084/102] fix: tlx::join_quoted loses empty entries and entries
 that start with a quote

---
 STX/tlx/tlx/string/join_quoted.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/join_quoted.cpp b/STX/tlx/tlx/string/join_quoted.cpp
index 7dd037c..fa749bd 100644
--- a/STX/tlx/tlx/string/join_quoted.cpp
+++ b/STX/tlx/tlx/string/join_quoted.cpp
@@ -22,7 +22,9 @@ std::string join_quoted(
         if (i != 0)
             out += sep;
 
-        if (vec[i].find(sep) != std::string::npos) {
+        // split_quoted() skips empty entries and parses a leading quote
+        if (vec[i].empty() || vec[i][0] == quote ||
+            vec[i].find(sep) != std::string::npos) {
             out += quote;
             for (std::string::const_iterator it = vec[i].begin();
                  it != vec[i].end(); ++it) {
-- 
2.43.0


From 1ba218abb2c62cf3304f32f49d3e3d74937d3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 085/102] fix: tlx::Aggregate += computes the variance from the
 merged mean, and NaN for two empty ones

---
 STX/tlx/tlx/math/aggregate.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/math/aggregate.hpp b/STX/tlx/tlx/math/aggregate.hpp
index 3c760fc..2a197ff 100644
--- a/STX/tlx/tlx/math/aggregate.hpp
+++ b/STX/tlx/tlx/math/aggregate.hpp
@@ -130,10 +130,11 @@ public:
 
     //! operator += to combine two Aggregate<>
     Aggregate& operator += (const Aggregate& a) noexcept {
+        // the variance is merged first: it needs both original means
+        nvar_ = combine_variance(a);
         mean_ = combine_means(a);
         min_ = std::min(min_, a.min_);
         max_ = std::max(max_, a.max_);
-        nvar_ = combine_variance(a);
         count_ += a.count_;
         return *this;
     }
@@ -157,6 +158,10 @@ private:
     //! T. Chan et al 1979, "Updating Formulae and a Pairwise Algorithm for
     //! Computing Sample Variances"
     double combine_variance(const Aggregate& other) const noexcept {
+        if (count_ == 0)
+            return other.nvar_;
+        if (other.count_ == 0)
+            return nvar_;
         double delta = mean_ - other.mean_;
         return nvar_ + other.nvar_ + (delta * delta) *
                (count_ * other.count_) / (count_ + other.count_);
-- 
2.43.0


From 997f3949661463a0720e5003b3e4a3dae5e492b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 086/102] fix: tlx::expand_environment_variables skips the
 character after a ${} expression

---
 STX/tlx/tlx/string/expand_environment_variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/expand_environment_variables.cpp b/STX/tlx/tlx/string/expand_environment_variables.cpp
index d06b6cd..96804ae 100644
--- a/STX/tlx/tlx/string/expand_environment_variables.cpp
+++ b/STX/tlx/tlx/string/expand_environment_variables.cpp
@@ -46,7 +46,7 @@ std::string& expand_environment_variables(std::string* sp) {
             // replace with value
             s.replace(dp, de - dp + 1, v);
 
-            p = dp + vlen + 1;
+            p = dp + vlen;
         }
         else if (dp + 1 < s.size() &&
                  (std::isalpha(s[dp + 1]) || s[dp + 1] == '_')) {
-- 
2.43.0


From 7fb686cdc599fc9db42466fcffe14ebe36ef8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 087/102] fix: tlx::parse_uri_form_data runs past a %-sequence
 cut short by a separator

---
 STX/tlx/tlx/string/parse_uri_form_data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/string/parse_uri_form_data.hpp b/STX/tlx/tlx/string/parse_uri_form_data.hpp
index 35aa334..99035e6 100644
--- a/STX/tlx/tlx/string/parse_uri_form_data.hpp
+++ b/STX/tlx/tlx/string/parse_uri_form_data.hpp
@@ -35,7 +35,8 @@ std::string parse_uri_form_data_decode(
     char a, b;
 
     while (*str && str != end) {
-        if (*str == '%' && (a = str[1]) != 0 && (b = str[2]) != 0) {
+        if (*str == '%' && str + 1 != end && (a = str[1]) != 0 &&
+            str + 2 != end && (b = str[2]) != 0) {
             if (a >= '0' && a <= '9')
                 a -= '0';
             else if (a >= 'a' && a <= 'f')
-- 
2.43.0


From 89a9815059f0d9122fae4ca20293f9e74fe60fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 088/102] fix: tlx::round_down_to_power_of_two overflows for
 the upper half of the numbers

---
 STX/tlx/tlx/math/round_to_power_of_two.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/math/round_to_power_of_two.hpp b/STX/tlx/tlx/math/round_to_power_of_two.hpp
index 6e59711..8941188 100644
--- a/STX/tlx/tlx/math/round_to_power_of_two.hpp
+++ b/STX/tlx/tlx/math/round_to_power_of_two.hpp
@@ -68,35 +68,43 @@ unsigned long long round_up_to_power_of_two(unsigned long long i) {
 /******************************************************************************/
 // round_down_to_power_of_two()
 
+template <typename Integral>
+static inline Integral round_down_to_power_of_two_template(Integral n) {
+    for (size_t k = 1; k != 8 * sizeof(n); k <<= 1) {
+        n |= n >> k;
+    }
+    return n - (n >> 1);
+}
+
 //! does what it says: round down to next power of two
 static inline int round_down_to_power_of_two(int i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline unsigned int round_down_to_power_of_two(unsigned int i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline long round_down_to_power_of_two(long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline unsigned long round_down_to_power_of_two(unsigned long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline long long round_down_to_power_of_two(long long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! does what it says: round down to next power of two
 static inline
 unsigned long long round_down_to_power_of_two(unsigned long long i) {
-    return round_up_to_power_of_two(i + 1) >> 1;
+    return round_down_to_power_of_two_template(i);
 }
 
 //! \}
-- 
2.43.0


From 34ea29a80b3be09d3fc2d907edcac82a0d5b58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 089/102] fix: tlx::levenshtein_algorithm ignores the insert
 cost at the start of a string

---
 STX/tlx/tlx/string/levenshtein.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/string/levenshtein.hpp b/STX/tlx/tlx/string/levenshtein.hpp
index 2f6a732..a487367 100644
--- a/STX/tlx/tlx/string/levenshtein.hpp
+++ b/STX/tlx/tlx/string/levenshtein.hpp
@@ -83,7 +83,7 @@ size_t levenshtein_algorithm(const char* a, size_t a_size,
 
     // fill this row with ascending ordinals.
     for (size_t i = 0; i < a_size + 1; i++) {
-        thisrow[i] = i;
+        thisrow[i] = i * Param::cost_insert_delete;
     }
 
     // compute distance
@@ -93,7 +93,7 @@ size_t levenshtein_algorithm(const char* a, size_t a_size,
         std::swap(lastrow, thisrow);
 
         // compute new row
-        thisrow[0] = j;
+        thisrow[0] = j * Param::cost_insert_delete;
 
         for (size_t i = 1; i < a_size + 1; i++)
         {
-- 
2.43.0


From 38dff7b644103db2892655098cf7cd622dc4775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 090/102] fix: tlx::ssprintf uses its arguments twice for
 results of 128 characters and more

---
 STX/tlx/tlx/string/ssprintf.cpp         | 6 ++++--
 STX/tlx/tlx/string/ssprintf_generic.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/STX/tlx/tlx/string/ssprintf.cpp b/STX/tlx/tlx/string/ssprintf.cpp
index cb08f80..46d8873 100644
--- a/STX/tlx/tlx/string/ssprintf.cpp
+++ b/STX/tlx/tlx/string/ssprintf.cpp
@@ -25,17 +25,19 @@ std::string ssprintf(const char* fmt, ...) {
     int size = std::vsnprintf(
         const_cast<char*>(out.data()), out.size() + 1, fmt, args);
 
+    va_end(args);
+
     if (size >= static_cast<int>(out.size())) {
         // error, grow buffer and try again.
         out.resize(size);
+        va_start(args, fmt);
         size = std::vsnprintf(
             const_cast<char*>(out.data()), out.size() + 1, fmt, args);
+        va_end(args);
     }
 
     out.resize(size);
 
-    va_end(args);
-
     return out;
 }
 
diff --git a/STX/tlx/tlx/string/ssprintf_generic.hpp b/STX/tlx/tlx/string/ssprintf_generic.hpp
index e8cd1e9..37e43fc 100644
--- a/STX/tlx/tlx/string/ssprintf_generic.hpp
+++ b/STX/tlx/tlx/string/ssprintf_generic.hpp
@@ -42,17 +42,19 @@ String ssprintf_generic(const char* fmt, ...) {
     int size = std::vsnprintf(
         const_cast<char*>(out.data()), out.size() + 1, fmt, args);
 
+    va_end(args);
+
     if (size >= static_cast<int>(out.size())) {
         // error, grow buffer and try again.
         out.resize(size);
+        va_start(args, fmt);
         size = std::vsnprintf(
             const_cast<char*>(out.data()), out.size() + 1, fmt, args);
+        va_end(args);
     }
 
     out.resize(size);
 
-    va_end(args);
-
     return out;
 }
 
-- 
2.43.0


From 40148e0bc37731668ed4dded6b34256e05194cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 091/102] fix: tlx::PolynomialRegression divides by a zero
 pivot for some point sets

---
 STX/tlx/tlx/math/polynomial_regression.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/STX/tlx/tlx/math/polynomial_regression.hpp b/STX/tlx/tlx/math/polynomial_regression.hpp
index b5894cc..088162f 100644
--- a/STX/tlx/tlx/math/polynomial_regression.hpp
+++ b/STX/tlx/tlx/math/polynomial_regression.hpp
@@ -174,19 +174,19 @@ protected:
             B[i * np2 + np1] = Y_[i];
         }
 
-        // pivotization of the B matrix.
+        // perform Gaussian elimination, in each step with the remaining row
+        // that has the largest pivot element.
         for (size_t i = 0; i < order_ + 1; ++i) {
+            size_t pivot = i;
             for (size_t k = i + 1; k < order_ + 1; ++k) {
-                if (B[i * np2 + i] < B[k * np2 + i]) {
-                    for (size_t j = 0; j <= order_ + 1; ++j) {
-                        std::swap(B[i * np2 + j], B[k * np2 + j]);
-                    }
+                if (std::abs(B[pivot * np2 + i]) < std::abs(B[k * np2 + i]))
+                    pivot = k;
+            }
+            if (pivot != i) {
+                for (size_t j = 0; j <= order_ + 1; ++j) {
+                    std::swap(B[i * np2 + j], B[pivot * np2 + j]);
                 }
             }
-        }
-
-        // perform Gaussian elimination.
-        for (size_t i = 0; i < order_; ++i) {
             for (size_t k = i + 1; k < order_ + 1; ++k) {
                 Type t = B[k * np2 + i] / B[i * np2 + i];
                 for (size_t j = 0; j <= order_ + 1; ++j) {
-- 
2.43.0


From 890919eda44541218292b8861f1549e5673ce296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 092/102] MassTree: log buffer size settable under
 INDEXRESEARCH_VERIF_LOG_BUFFER

---
 MassTree/log.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 0cad68b..b7e8262 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -182,7 +182,11 @@ loginfo::loginfo(logset* ls, int logindex) {
     f_.filename_ = String().internal_rep();
     f_.filename_.ref();
 
+#ifdef INDEXRESEARCH_VERIF_LOG_BUFFER
+    len_ = INDEXRESEARCH_VERIF_LOG_BUFFER;
+#else
     len_ = 20 * 1024 * 1024;
+#endif
     pos_ = 0;
     buf_ = (char *) malloc(len_);
     always_assert(buf_);
-- 
2.43.0


From db3a65de4fff3abbc088f831614dbb2e198043a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:55 +0000
Subject: [PATCH 093/102] fix: MassTree: a logger that notices another log
 waking lets its next record say so

---
 MassTree/log.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index b7e8262..f23623f 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -252,16 +252,17 @@ void* loginfo::run() {
         uint32_t nb = 0;
         acquire();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
+        // Another log has woken up, so we are not quiescent any more. The next
+        // record we write must tell (see record()): wake_epoch_ stays behind.
+        if (wake_epoch_ != we)
             quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
         if (!recovering && pos_ == 0 && !quiescent_epoch_
             && ge != log_epoch_ && ge != we && !f_.waiting_) {
             quiescent_epoch_ = log_epoch_ = ge;
+            wake_epoch_ = we;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
             if (log_epoch_ == wake_epoch_)
-- 
2.43.0


From 869088e07d6f597776b3558365828bae58f0e1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:15 +0000
Subject: [PATCH 094/102] fix: MassTree: log replay applies remove records

---
 MassTree/log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index f23623f..85f9fa5 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -555,7 +555,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From 6f777b057589146bcf59673725e1656fb64bb5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:15 +0000
Subject: [PATCH 095/102] fix: MassTree: removing a key that recovery knows to
 be removed answers that it is not there

---
 MassTree/kvrow.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index a92c9b2..1c983f5 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -242,9 +242,11 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
+    if (found && row_is_marker(lp.value()))
+        found = false;
     if (found)
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
-    lp.finish(-1, ti);
+    lp.finish(found ? -1 : 0, ti);
     return found;
 }
 
-- 
2.43.0


From b368ef5cafc8f310ee4cd7f75b63771f70d74f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 096/102] fix: MassTree: recovery takes a torn epoch record for
 the end of the log

---
 MassTree/log.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 85f9fa5..4e0bbde 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -486,7 +486,7 @@ logrecord::extract(const char *buf, const char *end)
         val.assign(lk->buf_ + lk->keylen_, lk->size_ - sizeof(*lk) - lk->keylen_);
     } else if (command == logcmd_epoch) {
         const logrec_epoch *lre = reinterpret_cast<const logrec_epoch *>(buf);
-        if (unlikely(lre->size_ < logrec_epoch::size()))
+        if (unlikely(lre->size_ < logrec_epoch::size() || !lre->epoch_)) // 0 isn't valid
             goto fail;
         epoch = lre->epoch_;
     }
@@ -628,7 +628,7 @@ logreplay::info() const
         if (lr->command_ == logcmd_epoch) {
             const logrec_epoch *lre =
                 reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
+            if (unlikely(lre->size_ < sizeof(*lre) || !lre->epoch_)) { // 0 isn't valid
                 log_corrupt = true;
                 break;
             }
@@ -677,7 +677,7 @@ logreplay::min_post_quiescent_wake_epoch(kvepoch_t quiescent_epoch) const
         if (lr->command_ == logcmd_epoch) {
             const logrec_epoch *lre =
                 reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
+            if (unlikely(lre->size_ < sizeof(*lre) || !lre->epoch_)) { // 0 isn't valid
                 log_corrupt = true;
                 break;
             }
-- 
2.43.0


From a1c38184e7c6b244ff3c283e5fb8754ea721d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 097/102] MassTree: connection buffer size settable under
 INDEXRESEARCH_VERIF_INBUF

---
 MassTree/mtd.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index a2b725d..c1558c8 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -464,7 +464,11 @@ void runtest(const char *testname, int nthreads) {
 
 struct conn {
     int fd;
+#ifdef INDEXRESEARCH_VERIF_INBUF
+    enum { inbufsz = INDEXRESEARCH_VERIF_INBUF, inbufrefill = INDEXRESEARCH_VERIF_INBUF };
+#else
     enum { inbufsz = 20 * 1024, inbufrefill = 16 * 1024 };
+#endif
 
     conn(int s)
         : fd(s), inbuf_(new char[inbufsz]),
-- 
2.43.0


From b0b81f191fffc62faa95e96b8adebdd38f685417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 098/102] fix: MassTree: a request logged from its parsed form
 is written the way replay reads it

---
 MassTree/log.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 4e0bbde..f6da4cf 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -376,7 +376,6 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From dcd1b3b548d7f76083f6b9a25cae6ff7c97593f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:57 +0000
Subject: [PATCH 099/102] fix: MassTree: no request is served before every log
 has its first record on disk

---
 MassTree/mtd.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index c1558c8..629c89f 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1499,6 +1499,12 @@ recover(threadinfo *)
   recovering = false;
   if (recovery_only)
       exit(0);
+
+  // A log without a single record cannot tell, after a crash, what it has
+  // lost. Serve no request before every log has its first record on disk.
+  for (int i = 0; i < nlogger; ++i)
+      while (!logs->log(i).flushed_epoch())
+          napms(1);
 }
 
 void
-- 
2.43.0


From 4b834ddb160dfe9a7a598cec0dad00106e216043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 100/102] fix: MassTree: recovery from a checkpoint of the
 logs' first epoch

---
 MassTree/log.cc | 2 +-
 MassTree/mtd.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index f6da4cf..3581879 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -711,7 +711,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         }
         if (lr.command == logcmd_epoch) {
             if ((min_epoch && lr.epoch < min_epoch)
-                || (!min_epoch && !repbegin))
+                || !repbegin)
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 629c89f..e34f2cd 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1464,7 +1464,7 @@ recover(threadinfo *)
 
   // Checks.
   if (rec_ckp_min_epoch) {
-      always_assert(rec_ckp_min_epoch > max_first_epoch);
+      always_assert(rec_ckp_min_epoch >= max_first_epoch);
       always_assert(rec_ckp_min_epoch < rec_replay_max_epoch);
       always_assert(rec_ckp_max_epoch < rec_replay_max_epoch);
       fprintf(stderr, "replay [%" PRIu64 ",%" PRIu64 ") from [%" PRIu64 ",%" PRIu64 ") into ckp [%" PRIu64 ",%" PRIu64 "]\n",
-- 
2.43.0


From 7f875c96bd0f8bbfc6e07d6701a184fee629b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:04 +0000
Subject: [PATCH 101/102] fix: MassTree: a quiescent log that has missed a wake
 does not count as flushed

---
 MassTree/log.cc | 2 +-
 MassTree/log.hh | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 3581879..e6f8b92 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -319,7 +319,7 @@ void loginfo::record(int command, const query_times& qtimes,
                 // quiescent for a while. If the quiescence marker has been
                 // flushed, then all epochs less than the query epoch are
                 // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
+                if (quiescent())
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
                 while (we < qtimes.epoch)
diff --git a/MassTree/log.hh b/MassTree/log.hh
index 3df07fa..d867399 100644
--- a/MassTree/log.hh
+++ b/MassTree/log.hh
@@ -187,7 +187,9 @@ inline kvepoch_t loginfo::flushed_epoch() const {
 }
 
 inline bool loginfo::quiescent() const {
-    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_;
+    // Recovery ignores what comes after a wake that a quiescent log has missed.
+    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_
+        && wake_epoch_ == global_wake_epoch;
 }
 
 inline int logset::size() const {
-- 
2.43.0


From 4f0cd625be75385eacb76e38fbcee5af5616fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:09 +0000
Subject: [PATCH 102/102] fix: MassTree: remove_leaf unlinks the removed child,
 not a new sibling with the same bound

Between unlinking a leaf from the list and taking its parent's lock, its left
neighbor owns its keys. If that neighbor splits at the removed leaf's bound, the
parent holds the bound twice and the search by key finds the new leaf. The removal
then dropped the new leaf from the tree and kept the deleted one, so later lookups
of its keys never end.
---
 MassTree/masstree_remove.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index ac377ce..b2918ec 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -222,6 +222,11 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         masstree_invariant(!p->deleted());
 
         int kp = internode_type::bound_type::upper(ikey, *p);
+        // The left neighbor owns `leaf`'s keys since the unlinking. It may have
+        // split at `ikey` as well; the new sibling is then to the right of `n`.
+        while (kp > 0 && p->child_[kp] != n) {
+            --kp;
+        }
         masstree_invariant(kp == 0 || p->ikey0_[kp - 1] <= ikey); // NB ikey might not equal!
         masstree_invariant(p->child_[kp] == n);
 
-- 
2.43.0

