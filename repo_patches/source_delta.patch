From 309465a279621cd8d4c6d8f17650f79336b6865e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 01/14] fix: CompareInt ordered far-apart integers wrongly
 (subtraction overflow)

---
 common_api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common_api.go b/common_api.go
index 3693788..7b01af3 100644
--- a/common_api.go
+++ b/common_api.go
@@ -28,7 +28,14 @@ func CompareInt(key1 Key, key2 Key) (result int, err error) {
 		return
 	}
 
-	result = key1Int - key2Int
+	if key1Int < key2Int {
+		result = -1
+	} else if key1Int == key2Int {
+		result = 0
+	} else { // key1Int > key2Int
+		result = 1
+	}
+
 	err = nil
 
 	return
-- 
2.43.0


From c26b9c4142c8e7b5552588f344561a8cee3e7393 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 02/14] fix: LLRB Reset() modified the tree without holding its
 lock

---
 llrb_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrb_tree.go b/llrb_tree.go
index ab11e50..45ff200 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -454,6 +454,9 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *llrbTreeStruct) Reset() {
+	tree.Lock()
+	defer tree.Unlock()
+
 	tree.root = nil
 }
 
-- 
2.43.0


From 12203f03a286a1700256daee10c47a0ee7c7a1f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 03/14] fix: B+Tree FetchLocation() read the root without
 holding the tree's lock

---
 btree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btree.go b/btree.go
index 89e92d0..1078aad 100644
--- a/btree.go
+++ b/btree.go
@@ -818,6 +818,9 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *btreeTreeStruct) FetchLocation() (rootObjectNumber uint64, rootObjectOffset uint64, rootObjectLength uint64) {
+	tree.Lock()
+	defer tree.Unlock()
+
 	rootObjectNumber = tree.root.objectNumber
 	rootObjectOffset = tree.root.objectOffset
 	rootObjectLength = tree.root.objectLength
-- 
2.43.0


From 1be886f6a4b5e59fd83fb3877dcadae0462d495e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 04/14] fix: Prune() discarded locations twice when retried
 after a DiscardNode() failure

---
 btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree.go b/btree.go
index 1078aad..87c5bd4 100644
--- a/btree.go
+++ b/btree.go
@@ -1080,6 +1080,10 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 			if nil != err {
 				return
 			}
+
+			// Ensure a subsequent Prune() or Discard(), should a later DiscardNode() fail, won't discard this one again
+
+			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)
 		}
 
 		tree.staleOnDiskReferencesList = nil
-- 
2.43.0


From dfa76fa6d9a9fda5ae94fae5cd1e53f81df586fd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 05/14] fix: Discard() ignored failures to load nodes and left
 the tree unusable after a failure

---
 btree.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/btree.go b/btree.go
index 87c5bd4..f9840cb 100644
--- a/btree.go
+++ b/btree.go
@@ -1015,17 +1015,27 @@ func (tree *btreeTreeStruct) Discard() (err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
-	// Discard every node in tree
+	// Load every node in tree and schedule its on-disk copy to be reclaimed (leaving tree usable should any of this fail)
 
-	tree.discardNode(tree.root)
+	err = tree.touchNode(tree.root)
+	if nil != err {
+		return
+	}
 
-	// Prune again to pick up now stale nodes added in discardNode()
+	// Prune now stale nodes, including those added in touchNode()
 
 	err = tree.pruneWhileLocked()
 	if nil != err {
 		return
 	}
 
+	// Discard every (now dirty) node in tree
+
+	err = tree.discardNode(tree.root)
+	if nil != err {
+		return
+	}
+
 	// Reset btreeTreeStruct to trigger Golang Garbage Collection now (and prevent further use)
 
 	tree.Compare = nil
-- 
2.43.0


From 50ae0eb612553d394de98a26a50db829ced30781 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 06/14] fix: DeleteByKey()/DeleteByIndex() removed the item
 though failing to load a sibling

---
 btree.go | 98 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 98 insertions(+)

diff --git a/btree.go b/btree.go
index f9840cb..5657641 100644
--- a/btree.go
+++ b/btree.go
@@ -376,6 +376,10 @@ func (tree *btreeTreeStruct) DeleteByIndex(index int) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			err = tree.loadSiblingsForRebalance(node, parentIndexStack)
+			if nil != err {
+				return
+			}
 			_, err = node.kvLLRB.DeleteByIndex(int(netIndex))
 			if nil != err {
 				return
@@ -438,6 +442,17 @@ func (tree *btreeTreeStruct) DeleteByKey(key Key) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			_, keyPresent, nonShadowingErr := node.kvLLRB.GetByKey(key)
+			if nil != nonShadowingErr {
+				err = nonShadowingErr
+				return
+			}
+			if keyPresent {
+				err = tree.loadSiblingsForRebalance(node, parentIndexStack)
+				if nil != err {
+					return
+				}
+			}
 			ok, err = node.kvLLRB.DeleteByKey(key)
 			if nil != err {
 				return
@@ -1326,6 +1341,89 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 	return
 }
 
+// loadSiblingsForRebalance loads each sibling that rebalanceHere() will need following the
+// removal of one key from node such that a failure to do so is detected before any change
+// has been made to the tree.
+func (tree *btreeTreeStruct) loadSiblingsForRebalance(node *btreeNodeStruct, parentIndexStack []int) (err error) {
+	var (
+		llrbLen              int
+		parentNodeIndex      int
+		siblingNode          *btreeNodeStruct
+		siblingNodeAsValue   Value
+		siblingNodeCanGiveUp bool
+	)
+
+	for !node.root {
+		llrbLen, err = node.kvLLRB.Len()
+		if nil != err {
+			return
+		}
+
+		if uint64(llrbLen) > tree.minKeysPerNode {
+			// node can give up a key without the need to rebalance
+
+			return
+		}
+
+		parentNodeIndex = parentIndexStack[len(parentIndexStack)-1]
+		parentIndexStack = parentIndexStack[:len(parentIndexStack)-1]
+
+		llrbLen, err = node.parentNode.kvLLRB.Len()
+		if nil != err {
+			return
+		}
+
+		siblingNodeCanGiveUp = false
+
+		for _, siblingNodeIndex := range []int{parentNodeIndex - 1, parentNodeIndex + 1} {
+			if (-1 > siblingNodeIndex) || (llrbLen <= siblingNodeIndex) {
+				// node has no such sibling
+
+				continue
+			}
+
+			if -1 == siblingNodeIndex {
+				siblingNode = node.parentNode.nonLeafLeftChild
+			} else {
+				_, siblingNodeAsValue, _, err = node.parentNode.kvLLRB.GetByIndex(siblingNodeIndex)
+				if nil != err {
+					return
+				}
+				siblingNode = siblingNodeAsValue.(*btreeNodeStruct)
+			}
+
+			if !siblingNode.loaded {
+				tree.incCacheMisses()
+				err = tree.loadNode(siblingNode) // will also mark siblingNode clean/used in LRU
+				if nil != err {
+					return
+				}
+			}
+
+			siblingLLRBLen, nonShadowingErr := siblingNode.kvLLRB.Len()
+			if nil != nonShadowingErr {
+				err = nonShadowingErr
+				return
+			}
+
+			if uint64(siblingLLRBLen) > tree.minKeysPerNode {
+				siblingNodeCanGiveUp = true
+				break
+			}
+		}
+
+		if siblingNodeCanGiveUp {
+			return
+		}
+
+		// node will be merged with a sibling removing one key from its parent
+
+		node = node.parentNode
+	}
+
+	return
+}
+
 func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, parentIndexStack []int) (err error) {
 	var (
 		i                                          int
-- 
2.43.0


From 1ee6576876211a27fa5e97a2c20c74bb730bc457 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 07/14] fix: Validate() skipped right children of the prefix
 sum tree and ignored errors of left ones

---
 btree_validate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree_validate.go b/btree_validate.go
index b1816ed..56cbbf0 100644
--- a/btree_validate.go
+++ b/btree_validate.go
@@ -153,6 +153,9 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 		}
 
 		err = node.prefixSumLeftChild.validatePrefixSum()
+		if nil != err {
+			return
+		}
 	}
 
 	if nil != node.prefixSumRightChild {
@@ -163,7 +166,7 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 			return
 		}
 
-		err = node.prefixSumLeftChild.validatePrefixSum()
+		err = node.prefixSumRightChild.validatePrefixSum()
 		if nil != err {
 			return
 		}
-- 
2.43.0


From 0ed14b5d068505a50d1e37036cc6c990d49d503f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 08/14] fix: B+Tree Dump() read node cache fields without its
 lock and ignored errors

---
 btree_dump.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/btree_dump.go b/btree_dump.go
index 4d28a68..429f3e6 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -10,6 +10,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 	defer tree.Unlock()
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		fmt.Printf("B+Tree @ %p has Node Cache @ %p\n", tree, tree.nodeCache)
 		fmt.Printf("  .evictLowLimit  = %v\n", tree.nodeCache.evictLowLimit)
 		fmt.Printf("  .evictHighLimit = %v\n", tree.nodeCache.evictHighLimit)
@@ -36,6 +37,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 		}
 		fmt.Printf("  .dirtyLRUItems  = %v\n", tree.nodeCache.dirtyLRUItems)
 		fmt.Printf("  .drainerActive  = %v\n", tree.nodeCache.drainerActive)
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("B+Tree @ %p has Root Node @ %p\n", tree, tree.root)
@@ -56,6 +58,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	}
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		switch node.btreeNodeCacheElement.btreeNodeCacheTag {
 		case noLRU:
 			fmt.Printf("%v  .btreeNodeCacheTag   = noLRU (%v)\n", indent, noLRU)
@@ -79,6 +82,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 				fmt.Printf("%v  .prevBTreeNode       = %p\n", indent, node.btreeNodeCacheElement.prevBTreeNode)
 			}
 		}
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("%v  .objectNumber        = 0x%016x\n", indent, node.objectNumber)
@@ -127,7 +131,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	if !node.leaf {
 		if nil != node.nonLeafLeftChild {
 			fmt.Printf("%v  .nonLeafLeftChild    = %p\n", indent, node.nonLeafLeftChild)
-			tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			err = tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
@@ -158,7 +165,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 		} else {
 			childNode := value.(*btreeNodeStruct)
 			fmt.Printf("%v  .kvLLRB[%v].Value     = %p\n", indent, i, childNode)
-			tree.dumpNode(childNode, "    "+indent)
+			err = tree.dumpNode(childNode, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From d19aba414a196c9460b12b828ffbeb64d9ff583c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 09/14] fix: node cache eviction did not start when modified
 nodes pushed it over its high limit

---
 btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree.go b/btree.go
index 5657641..c591ec2 100644
--- a/btree.go
+++ b/btree.go
@@ -2374,6 +2374,10 @@ func (tree *btreeTreeStruct) markNodeDirty(node *btreeNodeStruct) {
 				}
 			}
 		}
+		if !tree.nodeCache.drainerActive && (0 < tree.nodeCache.cleanLRUItems) && (tree.nodeCache.evictHighLimit < (tree.nodeCache.cleanLRUItems + tree.nodeCache.dirtyLRUItems)) {
+			tree.nodeCache.drainerActive = true
+			go tree.nodeCache.btreeNodeCacheDrainer()
+		}
 		tree.nodeCache.Unlock()
 	}
 }
-- 
2.43.0


From fd38cbed6adc567266a44bc0859355c8c0109d36 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 10/14] fix: B+Tree PatchByKey() dirtied nodes when nothing was
 patched

---
 btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index c591ec2..0042254 100644
--- a/btree.go
+++ b/btree.go
@@ -723,8 +723,10 @@ func (tree *btreeTreeStruct) PatchByKey(key Key, value Value) (ok bool, err erro
 		}
 
 		if node.leaf {
-			tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
 			ok, err = node.kvLLRB.PatchByKey(key, value)
+			if (nil == err) && ok {
+				tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
+			}
 			return
 		}
 
-- 
2.43.0


From 095a2f7ddeba8bbe448f79d032c2b8ef97687894 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 11/14] fix: loading a non-leaf node dropped children whose
 keys could not be ordered

---
 btree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index 0042254..f1f014a 100644
--- a/btree.go
+++ b/btree.go
@@ -2972,7 +2972,15 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 					kvLLRB:       nil,
 				}
 
-				node.kvLLRB.Put(key, childNode)
+				ok, nonShadowingErr := node.kvLLRB.Put(key, childNode)
+				if nil != nonShadowingErr {
+					err = nonShadowingErr
+					return
+				}
+				if !ok {
+					err = fmt.Errorf("Logic error: loadNode() call to Put() should have worked")
+					return
+				}
 
 				tree.initNodeAsEvicted(childNode)
 			}
-- 
2.43.0


From d4f0d72b82f72617a26d7eecfb483bedb6042a79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 12/14] fix: a failed node load left the node's item count and
 children altered

---
 btree.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/btree.go b/btree.go
index f1f014a..27c6785 100644
--- a/btree.go
+++ b/btree.go
@@ -2842,6 +2842,9 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		numKeysStruct         onDiskUint64Struct
 		onDiskNode            onDiskNodeStruct
 		onDiskReferenceToNode onDiskReferenceToNodeStruct
+		savedItems            = node.items
+		savedLeaf             = node.leaf
+		savedRoot             = node.root
 	)
 
 	nodeByteSlice, err := tree.BPlusTreeCallbacks.GetNode(node.objectNumber, node.objectOffset, node.objectLength)
@@ -2849,6 +2852,19 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		return
 	}
 
+	// Should we fail beyond this point, leave node as it was (i.e. not loaded)
+
+	defer func() {
+		if nil != err {
+			node.items = savedItems
+			node.leaf = savedLeaf
+			node.root = savedRoot
+			node.kvLLRB = nil
+			node.nonLeafLeftChild = nil
+			node.rootPrefixSumChild = nil
+		}
+	}()
+
 	node.kvLLRB = NewLLRBTree(node.tree.Compare, node.tree.BPlusTreeCallbacks)
 
 	_, err = cstruct.Unpack(nodeByteSlice, &onDiskNode, OnDiskByteOrder)
-- 
2.43.0


From b0aef4160779d89a5ce2ca97624d88cbb0d50e81 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 13/14] fix: a non-leaf node whose item total disagrees with
 its children's was accepted

---
 btree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index 27c6785..890ac80 100644
--- a/btree.go
+++ b/btree.go
@@ -3001,7 +3001,15 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 				tree.initNodeAsEvicted(childNode)
 			}
 
-			tree.arrangePrefixSumTree(node)
+			err = tree.arrangePrefixSumTree(node)
+			if nil != err {
+				return
+			}
+
+			if node.items != onDiskNode.Items {
+				err = fmt.Errorf("Logic error: loadNode() found node items [%d] != sum of its children's items [%d]", onDiskNode.Items, node.items)
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From 707487d43516189abdd58dceaa067fe398a99653 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 14/14] fix: count nodes stored in object number 0 in the
 layout report

---
 btree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index 890ac80..507948a 100644
--- a/btree.go
+++ b/btree.go
@@ -3215,7 +3215,7 @@ func (tree *btreeTreeStruct) updateLayoutReport(layoutReport LayoutReport, node
 		}
 	}
 
-	if 0 != node.objectNumber {
+	if 0 != node.objectLength {
 		prevObjectBytes, ok := layoutReport[node.objectNumber]
 		if !ok {
 			prevObjectBytes = 0
-- 
2.43.0

