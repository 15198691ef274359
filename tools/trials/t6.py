L='llrb_tree.go';BT='btree.go';API='btree_api.go';D='btree_dump.go'
def T(i,p,e): return (i,p,e)
TR=[
T('cmp-minus1',['C01','C02'],[(L,"		if compareResult < 0 { // key < node.Key\n			node = node.left\n\n			if nil == node {\n				// key not found, nodeIndex points to key:value just after where key would go\n\n				index = nodeIndex\n","		if compareResult == -1 { // key < node.Key\n			node = node.left\n\n			if nil == node {\n				// key not found, nodeIndex points to key:value just after where key would go\n\n				index = nodeIndex\n")]),
T('cmp-minus1-bt',['C02'],[(BT,"			if 0 > compareResult {\n				node = node.nonLeafLeftChild","			if -1 == compareResult {\n				node = node.nonLeafLeftChild",'all')]),
T('cmp-int32',['C02'],[(BT,"			if 0 > compareResult {\n				node = node.nonLeafLeftChild","			if 0 > int32(compareResult) {\n				node = node.nonLeafLeftChild",'all')]),
T('num32',['C04','C07','C11'],[(BT,"				onDiskReferenceToNode.ObjectNumber = childNode.objectNumber\n","				onDiskReferenceToNode.ObjectNumber = uint64(int64(int32(childNode.objectNumber)))\n")]),
T('off40',['C04','C11'],[(BT,"	node.objectOffset = objectOffset\n	node.objectLength = uint64(len(onDiskNodeBuf))\n","	node.objectOffset = objectOffset & (1<<40 - 1)\n	node.objectLength = uint64(len(onDiskNodeBuf))\n")]),
T('layout-cache',['C07','C18'],[(BT,"	layoutReport = make(map[uint64]uint64)\n\n	err = tree.updateLayoutReport(layoutReport, tree.root)\n","	if (nil != tree.lastLayout) && !tree.root.dirty && (tree.root.objectOffset == tree.lastLayoutOffset) && (tree.root.objectNumber == tree.lastLayoutNumber) {\n		layoutReport = tree.lastLayout\n		return\n	}\n\n	layoutReport = make(map[uint64]uint64)\n\n	err = tree.updateLayoutReport(layoutReport, tree.root)\n	if (nil == err) && !tree.root.dirty {\n		tree.lastLayout, tree.lastLayoutNumber, tree.lastLayoutOffset = layoutReport, tree.root.objectNumber, tree.root.objectOffset\n	}\n"),(BT,"	sync.Mutex\n	minKeysPerNode","	sync.Mutex\n	lastLayout LayoutReport\n	lastLayoutNumber, lastLayoutOffset uint64\n	minKeysPerNode")]),
T('stats-live',['C17'],[(BT,"	bPlusTreeCacheStats = &BPlusTreeCacheStats{","	bPlusTreeCacheStats = &bPlusTreeCache.stats\n	*bPlusTreeCacheStats = BPlusTreeCacheStats{"),(BT,"type btreeNodeCacheStruct struct {\n	sync.Mutex\n","type btreeNodeCacheStruct struct {\n	sync.Mutex\n	stats BPlusTreeCacheStats\n")]),
T('purge-firstdirty',['C18'],[(BT,"			err = tree.purgeNode(childNode, full)\n","			if !full && childNode.dirty && childNode.leaf {\n				break\n			}\n\n			err = tree.purgeNode(childNode, full)\n")]),
T('used-order',['C17'],[(BT,"		node.nextBTreeNode = nil\n					node.prevBTreeNode = tree.nodeCache.cleanLRUTail\n","		node.nextBTreeNode = nil\n					node.prevBTreeNode = tree.nodeCache.cleanLRUTail\n",'all')]),
T('len-cache',['C01','C02','C05'],[(BT,"	numberOfItems = int(tree.root.items)\n","	if 0 == tree.lastLen {\n		tree.lastLen = int(tree.root.items)\n	}\n	numberOfItems = tree.lastLen\n")]),
T('patch-dirty-leafonly',['C04','C05','C12'],[(BT,"func (tree *btreeTreeStruct) touchLoadedNodeToRoot(node *btreeNodeStruct) {\n	for {\n		tree.markNodeDirty(node)\n\n		if node.root {","func (tree *btreeTreeStruct) touchLoadedNodeToRoot(node *btreeNodeStruct) {\n	for {\n		if node.dirty && node.parentNode != nil && node.parentNode.root {\n			return\n		}\n		tree.markNodeDirty(node)\n\n		if node.root {")]),
T('markdirty-skip',['C12','C17'],[(BT,"func (tree *btreeTreeStruct) markNodeDirty(node *btreeNodeStruct) {\n	node.dirty = true\n","func (tree *btreeTreeStruct) markNodeDirty(node *btreeNodeStruct) {\n	if node.dirty && (0 == node.objectLength) && (dirtyLRU == node.btreeNodeCacheTag) {\n		return\n	}\n	node.dirty = true\n")]),
T('markdirty-early',['C04','C08','C07'],[(BT,"func (tree *btreeTreeStruct) markNodeDirty(node *btreeNodeStruct) {\n	node.dirty = true\n","func (tree *btreeTreeStruct) markNodeDirty(node *btreeNodeStruct) {\n	if node.dirty {\n		return\n	}\n	node.dirty = true\n")]),
T('stale-by-num',['C07'],[(BT,"		tree.staleOnDiskReferencesList[staleOnDiskReference] = struct{}{}\n","		for other := range tree.staleOnDiskReferencesList {\n			if (other.objectNumber == staleOnDiskReference.objectNumber) && (other.objectOffset == staleOnDiskReference.objectOffset) {\n				delete(tree.staleOnDiskReferencesList, other)\n			}\n		}\n		tree.staleOnDiskReferencesList[staleOnDiskReference] = struct{}{}\n")]),
T('discard-cache-leave',['C07','C17'],[(BT,"	tree.markNodeToBeDiscarded(node)\n\n	err = nil\n	return\n}\n\nfunc (tree *btreeTreeStruct) insertHere","	if (0 != node.objectLength) || node.root || !node.leaf {\n		tree.markNodeToBeDiscarded(node)\n	}\n\n	err = nil\n	return\n}\n\nfunc (tree *btreeTreeStruct) insertHere")]),
T('dims-height-cache',['C03'],[(BT,"		node = node.nonLeafLeftChild\n\n		dimensionsReport.Height++\n","		node = node.nonLeafLeftChild\n\n		dimensionsReport.Height++\n		if 7 < dimensionsReport.Height {\n			dimensionsReport.Height = 7\n		}\n")]),
T('flush-depth',['C04'],[(BT,"	if node.dirty {\n		err = tree.postNode(node) // will also mark node clean/used in LRU\n","	if node.dirty || (node.leaf && !node.root && (0 == node.items)) {\n		err = tree.postNode(node) // will also mark node clean/used in LRU\n")]),
T('evict-dirty-parent',['C16','C17'],[(BT,"	if full && node.dirty {\n","	if full && node.dirty && !node.leaf {\n		err = nil\n		return\n	}\n\n	if full && node.dirty {\n")]),
T('root-nil-discard',['C16'],[(BT,"		treeBeingEvictedFrom = nodeToEvict.tree\n		bPlusTreeCache.Unlock()\n		treeBeingEvictedFrom.Lock()\n","		treeBeingEvictedFrom = nodeToEvict.tree\n		bPlusTreeCache.Unlock()\n		treeBeingEvictedFrom.Lock()\n\n		if treeBeingEvictedFrom.root == nil {\n			treeBeingEvictedFrom.Unlock()\n			return\n		}\n")]),
T('val-skip-right',['C09'],[("btree_validate.go","		if childItems != node.items {","		if childItems < node.items {")]),
T('old-min',['C03','C04','C11'],[(BT,"		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1\n","		if 0 == tree.minKeysPerNode {\n			tree.minKeysPerNode = maxKeysPerNodeStruct.U64 / 2\n		} else {\n			tree.minKeysPerNode = maxKeysPerNodeStruct.U64/2 - 1\n		}\n")]),
T('split-notdirty-parent',['C04','C12'],[(BT,"	tree.markNodeDirty(updatedChildNode)\n\n	if updatedChildNode.root {","	if delta > 0 || updatedChildNode.leaf || !updatedChildNode.root {\n		tree.markNodeDirty(updatedChildNode)\n	}\n\n	if updatedChildNode.root {")]),
]
