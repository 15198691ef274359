L='llrb_tree.go'; BT='btree.go'; API='btree_api.go'; DMP='btree_dump.go'; VAL='btree_validate.go'
TR=[]
def T(*a): TR.append(a)
T('dr-loadedonly',['C16'],[(BT,"if cleanLRU != nodeToEvict.btreeNodeCacheTag {","if !nodeToEvict.loaded {")])
T('dr-snaplimit',['C16','C17'],[(BT,"	for {\n		bPlusTreeCache.Lock()\n		if (0 == bPlusTreeCache.cleanLRUItems) || (bPlusTreeCache.evictLowLimit >=","	bPlusTreeCache.Lock()\n	evictLowLimit := bPlusTreeCache.evictLowLimit\n	bPlusTreeCache.Unlock()\n\n	for {\n		bPlusTreeCache.Lock()\n		if (0 == bPlusTreeCache.cleanLRUItems) || (evictLowLimit >=")])
T('dr-unlockedtag',['C16','C17'],[(BT,"		treeBeingEvictedFrom = nodeToEvict.tree\n		bPlusTreeCache.Unlock()\n		treeBeingEvictedFrom.Lock()\n","		treeBeingEvictedFrom = nodeToEvict.tree\n		bPlusTreeCache.Unlock()\n		if treeBeingEvictedFrom.root == nodeToEvict {\n			continue\n		}\n		treeBeingEvictedFrom.Lock()\n")])
T('clean-trigger-le',['C17'],[(BT,"		if !tree.nodeCache.drainerActive && (tree.nodeCache.evictHighLimit < (tree","		if !tree.nodeCache.drainerActive && (tree.nodeCache.evictHighLimit <= (tree",0)])
T('upd-notrigger',['C17'],[(BT,"	if !bPlusTreeCache.drainerActive && (0 < bPlusTreeCache.cleanLRUItems) && (bPlus","	if false && !bPlusTreeCache.drainerActive && (0 < bPlusTreeCache.cleanLRUItems) && (bPlus")])
T('pack-nonleaf-err',['C08'],[(BT,"				packedKey, packKeyErr := tree.BPlusTreeCallbacks.PackKey(key)\n				if nil != packKeyErr {\n					err = packKeyErr\n					return\n				}","				packedKey, _ := tree.BPlusTreeCallbacks.PackKey(key)")])
T('load-norestore-left',['C08','C09'],[(BT,"			node.root = savedRoot\n			node.kvLLRB = nil\n			node.nonLeafLeftChild = nil","			node.root = savedRoot\n			node.kvLLRB = nil")])
T('load-mutate-order-first',['C08','C09'],[(BT,"	node.loaded = true\n\n	tree.markNodeClean(node)\n\n	err = nil\n	return\n}\n\nfunc (tree *btreeTreeStruct) postNode","	node.loaded = true\n	node.dirty = false\n\n	tree.markNodeClean(node)\n\n	err = nil\n	return\n}\n\nfunc (tree *btreeTreeStruct) postNode")])
T('prune-64',['C07'],[(BT,"			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)\n","			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)\n			if n++; n >= 8 {\n				break\n			}\n"),(BT,"		staleOnDiskReference staleOnDiskReferenceStruct\n	)\n\n	// Discard all","		n int\n		staleOnDiskReference staleOnDiskReferenceStruct\n	)\n\n	// Discard all")])
T('load-minkeys',['C03'],[(BT,"tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1","tree.minKeysPerNode = (maxKeysPerNodeStruct.U64 - 1) >> 1")])
T('flush-purge-onlydirty',['C18'],[(BT,"	if node.dirty {\n		err = tree.postNode(node) // will","	wasDirty := node.dirty\n	if node.dirty {\n		err = tree.postNode(node) // will"),(BT,"	if andPurge {\n		tree.markNodeEvicted","	if andPurge && wasDirty {\n		tree.markNodeEvicted")])
T('purge-noerr',['C05','C18'],[(BT,"	if full && node.dirty {\n		err = fmt","	if full && node.dirty && node.root {\n		err = fmt")])
T('touch-loadedonly',['C04','C07'],[(BT,"func (tree *btreeTreeStruct) touchNode(node *btreeNodeStruct) (err error) {\n	if node.loaded {","func (tree *btreeTreeStruct) touchNode(node *btreeNodeStruct) (err error) {\n	if !node.loaded && !node.root {\n		return\n	}\n	if node.loaded {")])
T('touchitem-next',['C04','C07','C06'],[(BT,"nextItemIndexToTouch = thisItemIndexToTouch + (uint64(itemsInLeafNode) - netIndex)","nextItemIndexToTouch = thisItemIndexToTouch + uint64(itemsInLeafNode)")])
T('dim-unlocked',['C15'],[(BT,"	tree.Lock()\n	defer tree.Unlock()\n\n	node = tree.root\n\n	for {\n		if node.loaded {\n			tree.incCacheHits()\n			tree.markNodeUsed(node)\n		} else {\n			tree.incCacheMisses()\n			err = tree.loadNode(node) // will also mark node clean/used in LRU\n			if nil != err {\n				return\n			}\n		}\n\n		if node.root {\n			dim","	node = tree.root\n\n	for {\n		if node.loaded {\n			tree.incCacheHits()\n			tree.markNodeUsed(node)\n		} else {\n			tree.incCacheMisses()\n			err = tree.loadNode(node) // will also mark node clean/used in LRU\n			if nil != err {\n				return\n			}\n		}\n\n		if node.root {\n			dim")])
T('touchitem-twophase',['C15'],[(BT,"	tree.Lock()\n	defer tree.Unlock()\n\n	node := tree.root\n\n	if 0 == node.items {","	tree.Lock()\n	defer tree.Unlock()\n\n	node := tree.root\n	tree.Unlock()\n	tree.Lock()\n\n	if 0 == node.items {")])
T('layout-twophase',['C15'],[(BT,"	layoutReport = make(map[uint64]uint64)\n\n	err = tree.updateLayoutReport(layoutReport, tree.root)","	layoutReport = make(map[uint64]uint64)\n	root := tree.root\n	tree.Unlock()\n	tree.Lock()\n\n	err = tree.updateLayoutReport(layoutReport, root)")])
T('hits-unlocked',['C15','C16'],[(BT,"		tree.nodeCache.Lock()\n		tree.nodeCache.cacheHits++\n		tree.nodeCache.Unlock()","		tree.nodeCache.cacheHits++")])
T('stats-unlocked',['C15','C16'],[(BT,"	bPlusTreeCache.Lock()\n	bPlusTreeCacheStats = ","	bPlusTreeCacheStats = "),(BT,"		CacheMisses:    bPlusTreeCache.cacheMisses,\n	}\n	bPlusTreeCache.Unlock()","		CacheMisses:    bPlusTreeCache.cacheMisses,\n	}")])
T('limits-twostep',['C16','C17'],[(BT,"	bPlusTreeCache.evictLowLimit = evictLowLimit\n	bPlusTreeCache.evictHighLimit = evictHighLimit\n	if !bPlusTreeCache.drainerActive","	bPlusTreeCache.evictLowLimit = evictLowLimit\n	bPlusTreeCache.Unlock()\n	bPlusTreeCache.Lock()\n	bPlusTreeCache.evictHighLimit = evictHighLimit\n	if bPlusTreeCache.drainerActive")])
T('child-items-touch',['C04','C03'],[(BT,"				onDiskReferenceToNode.Items = node.nonLeafLeftChild.items","				onDiskReferenceToNode.Items = node.nonLeafLeftChild.prefixSumItems")])
T('uint16-items',['C02','C04'],[(BT,"kvLLRBLenStruct := onDiskUint64Struct{U64: uint64(kvLLRBLen)}","kvLLRBLenStruct := onDiskUint64Struct{U64: uint64(uint16(kvLLRBLen))}")])
T('uint8-items',['C02','C04'],[(BT,"kvLLRBLenStruct := onDiskUint64Struct{U64: uint64(kvLLRBLen)}","kvLLRBLenStruct := onDiskUint64Struct{U64: uint64(uint8(kvLLRBLen))}")])
T('merge-earlyclean',['C05','C04'],[(BT,"		tree.markNodeToBeDiscarded(rightSiblingNode)\n		tree.markNodeDirty(rebalanceNode)","		tree.markNodeToBeDiscarded(rightSiblingNode)\n		if !rebalanceNode.root {\n			tree.markNodeDirty(rebalanceNode)\n		}")])
T('lru-head',['C17','C16'],[(BT,"				tree.nodeCache.cleanLRUTail.nextBTreeNode = node\n				tree.nodeCache.cleanLRUTail = node\n				tree.nodeCache.cleanLRUItems++\n			}\n		}\n		if !","				tree.nodeCache.cleanLRUTail.nextBTreeNode = node\n				tree.nodeCache.cleanLRUTail = node\n				tree.nodeCache.cleanLRUItems++\n				if 7 == tree.nodeCache.cleanLRUItems {\n					tree.nodeCache.cleanLRUItems--\n				}\n			}\n		}\n		if !")])
T('pack-appendkey',['C06','C04','C12'],[(BT,"			onDiskNode.Payload = append(onDiskNode.Payload, packedKey...)\n			packedValue, packValueErr := tree.BPlusTreeCallbacks.PackValue(value)\n			if nil != packValueErr {\n				err = packValueErr\n				return\n			}\n			onDiskNode.Payload = append(onDiskNode.Payload, packedValue...)","			packedValue, packValueErr := tree.BPlusTreeCallbacks.PackValue(value)\n			if nil != packValueErr {\n				err = packValueErr\n				return\n			}\n			onDiskNode.Payload = append(onDiskNode.Payload, append(packedKey, packedValue...)...)")])
T('nilval',['C02'],[(BT,"		if node.leaf {\n			value, ok, err = node.kvLLRB.GetByKey(key)\n			return","		if node.leaf {\n			value, ok, err = node.kvLLRB.GetByKey(key)\n			ok = ok && (nil != value)\n			return")])
T('global-scratch',['C15','C06'],[(BT,"func (tree *btreeTreeStruct) postNode(node","var packScratch []byte\n\nfunc (tree *btreeTreeStruct) postNode(node"),(BT,"		Payload: []byte{},\n	}\n\n	if node.root {\n		maxK","		Payload: packScratch[:0],\n	}\n\n	if node.root {\n		maxK"),(BT,"	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)","	packScratch = onDiskNode.Payload\n	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)")])
T('put-ignore-load-err',['C08'],[(BT,"			if !siblingNode.loaded {\n				tree.incCacheMisses()\n				err = tree.loadNode(siblingNode) // will also mark siblingNode clean/used in LRU\n				if nil != err {\n					return\n				}\n			}","			if !siblingNode.loaded {\n				tree.incCacheMisses()\n				err = tree.loadNode(siblingNode) // will also mark siblingNode clean/used in LRU\n				if nil != err {\n					return nil\n				}\n			}")])
T('discard-noload',['C07','C06'],[(BT,"	err = tree.touchNode(tree.root)\n	if nil != err {\n		return\n	}\n\n	// Prune now","	if tree.root.leaf {\n		err = tree.touchNode(tree.root)\n		if nil != err {\n			return\n		}\n	}\n\n	// Prune now")])
T('load-itemscheck',['C09'],[(BT,"			if node.items != onDiskNode.Items {","			if node.items < onDiskNode.Items {")])
T('load-putok',['C09','C12'],[(BT,"			if !ok {\n				err = fmt.Errorf(\"Logic error: loadNode() call to Put() should have worked\")\n				return\n			}\n		}\n\n		node.rootP","			_ = ok\n		}\n\n		node.rootP")])
