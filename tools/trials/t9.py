BT='btree.go'; API='btree_api.go'; CM='common_api.go'; LT='llrb_tree.go'
def T(i,p,e): return (i,p,e)
KV="		node.kvLLRB = nil\n		node.nonLeafLeftChild = nil\n		node.rootPrefixSumChild = nil\n\n		node.loaded = false\n"
TR=[
T('mem-flush',['C18'],[(BT,KV,"		node.loaded = false\n",0)]),
T('mem-purge',['C18'],[(BT,KV,"		node.loaded = false\n",1)]),
T('min-clamp-64',['C03'],[(API,"	minKeysPerNode := maxKeysPerNode >> 1\n	if (4","	minKeysPerNode := maxKeysPerNode >> 1\n	defer func() {\n		if t := tree.(*btreeTreeStruct); 64 < t.minKeysPerNode {\n			t.minKeysPerNode = 64\n		}\n	}()\n	if (4")]),
T('min-clamp-512',['C03'],[(API,"	minKeysPerNode := maxKeysPerNode >> 1\n	if (4","	minKeysPerNode := maxKeysPerNode >> 1\n	defer func() {\n		if t := tree.(*btreeTreeStruct); 512 < t.minKeysPerNode {\n			t.minKeysPerNode = 512\n		}\n	}()\n	if (4")]),
T('min-clamp-5000',['C03'],[(API,"	minKeysPerNode := maxKeysPerNode >> 1\n	if (4","	minKeysPerNode := maxKeysPerNode >> 1\n	defer func() {\n		if t := tree.(*btreeTreeStruct); 5000 < t.minKeysPerNode {\n			t.minKeysPerNode = 5000\n		}\n	}()\n	if (4")]),
T('max-32bit',['C03','C04'],[(API,"		maxKeysPerNode:            maxKeysPerNode,\n","		maxKeysPerNode:            maxKeysPerNode & 0xFFFFFFFF,\n")]),
T('post-dedupe',['C07','C12'],[(BT,"	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)\n	if nil != err {\n		return\n	}\n","	if node.lastImage == string(onDiskNodeBuf) {\n		for ref := range tree.staleOnDiskReferencesList {\n			if node.lastRef == ref {\n				delete(tree.staleOnDiskReferencesList, ref)\n				node.objectNumber, node.objectOffset, node.objectLength = ref.objectNumber, ref.objectOffset, ref.objectLength\n				tree.markNodeClean(node)\n				return\n			}\n		}\n	}\n	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)\n	if nil != err {\n		return\n	}\n	node.lastImage = string(onDiskNodeBuf)\n	node.lastRef = staleOnDiskReferenceStruct{objectNumber, objectOffset, uint64(len(onDiskNodeBuf))}\n"),(BT,"	loaded       bool\n","	loaded       bool\n	lastImage string\n	lastRef staleOnDiskReferenceStruct\n")]),
T('ref-items32',['C11','C09'],[(BT,"				items:        onDiskReferenceToNode.Items,\n				loaded","				items:        uint64(uint32(onDiskReferenceToNode.Items)),\n				loaded"),(BT,"					items:        onDiskReferenceToNode.Items,\n","					items:        uint64(uint32(onDiskReferenceToNode.Items)),\n"),(BT,"			if node.items != onDiskNode.Items {","			if uint32(node.items) != uint32(onDiskNode.Items) {")]),
T('cmp-nil',['C10'],[(CM,"	key1Uint64, ok := key1.(uint64)\n","	if nil == key1 {\n		key1 = uint64(0)\n	}\n	key1Uint64, ok := key1.(uint64)\n")]),
T('upd-trigger-low',['C17'],[(BT,"	if !bPlusTreeCache.drainerActive && (0 < bPlusTreeCache.cleanLRUItems) && (bPlusTreeCache.evictHighLimit <","	if !bPlusTreeCache.drainerActive && (0 < bPlusTreeCache.cleanLRUItems) && (bPlusTreeCache.evictLowLimit <")]),
T('prefetch',['C15','C18'],[(BT,"	node.loaded = true\n\n	tree.markNodeClean(node)\n","	node.loaded = true\n\n	tree.markNodeClean(node)\n\n	if !node.leaf && nil != node.nonLeafLeftChild {\n		child := node.nonLeafLeftChild\n		go func() {\n			tree.Lock()\n			defer tree.Unlock()\n			if node.loaded && child == node.nonLeafLeftChild && !child.loaded {\n				_ = tree.loadNode(child)\n			}\n		}()\n	}\n")]),
T('delete-reput',['C12','C07'],[(BT,"func (tree *btreeTreeStruct) DeleteByKey(","func (tree *btreeTreeStruct) noop() {}\n\nfunc (tree *btreeTreeStruct) DeleteByKey(")]),
T('discard-skip-unloaded',['C07'],[(BT,"	err = tree.discardNode(tree.root)\n	if nil != err {\n		return\n	}\n","	if !tree.root.leaf || nil == tree.nodeCache || 0 < tree.root.items {\n		err = tree.discardNode(tree.root)\n		if nil != err {\n			return\n		}\n	}\n")]),
T('len-cached-root',['C18'],[(BT,"	if tree.root.loaded {\n		tree.incCacheHits()\n	} else {\n		tree.incCacheMisses()\n		err = tree.loadNode(tree.root)\n		if nil != err {\n			return\n		}\n	}\n\n	numberOfItems","	if tree.root.loaded {\n		tree.incCacheHits()\n	} else {\n		tree.incCacheMisses()\n		err = tree.loadNode(tree.root)\n		if nil != err {\n			return\n		}\n		if !tree.root.leaf {\n			err = tree.loadNode(tree.root.nonLeafLeftChild)\n			if nil != err {\n				return\n			}\n		}\n	}\n\n	numberOfItems")]),
T('stale-slice-len',['C07'],[(BT,"	if 0 != node.objectLength {\n		// Node came","	if 0 != node.objectLength && (node.root || nil != node.parentNode) {\n		// Node came")]),
T('flush-skip-empty',['C04','C05'],[(BT,"	err = tree.flushNode(tree.root, andPurge) // will","	if !tree.root.dirty && !andPurge {\n		rootObjectNumber = tree.root.objectNumber\n		rootObjectOffset = tree.root.objectOffset\n		rootObjectLength = tree.root.objectLength\n		return\n	}\n	err = tree.flushNode(tree.root, andPurge) // will")]),
T('prune-lifo-cap',['C07'],[(BT,"		tree.staleOnDiskReferencesList = nil\n	}\n\n	// All done","		if 1024 > len(tree.staleOnDiskReferencesList) {\n			tree.staleOnDiskReferencesList = nil\n		}\n	}\n\n	// All done")]),
T('dump-cachelen',['C19'],[]),
]
TR=[t for t in TR if t[2] and t[0] not in('delete-reput',)]
