L='llrb_tree.go'; BT='btree.go'; API='btree_api.go'; DMP='btree_dump.go'; VAL='btree_validate.go'; CM='common_api.go'; LD='llrb_dump.go'; LV='llrb_validate.go'; LA='llrb_tree_api.go'
TR=[]
def T(*a): TR.append(a)
T('l-patch-equal',['C01','C02'],[(L,"		default: // compareResult == 0 (key == node.Key)\n			node.Value = value\n			ok = true","		default: // compareResult == 0 (key == node.Key)\n			if node.Value != value {\n				node.Value = value\n			}\n			ok = true")])
T('l-get-eq-fast',['C01','C02','C13'],[(L,"	for nil != node {\n		compareResult, compareErr := tree.Compare(key, node.Key)\n		if nil != compareErr {\n			err = compareErr\n			return\n		}\n\n		switch {\n		case compareResult < 0: // key < node.Key\n			node = node.left\n		case compareResult > 0: // key > node.Key\n			node = node.right\n		default: // compareResult == 0 (key == node.Key)\n			value = node.Value","	for nil != node {\n		if key == node.Key {\n			return node.Value, true, nil\n		}\n		compareResult, compareErr := tree.Compare(key, node.Key)\n		if nil != compareErr {\n			err = compareErr\n			return\n		}\n\n		switch {\n		case compareResult < 0: // key < node.Key\n			node = node.left\n		case compareResult > 0: // key > node.Key\n			node = node.right\n		default: // compareResult == 0 (key == node.Key)\n			value = node.Value")])
T('l-put-dup-rekey',['C01','C02'],[(L,"		ok = false // Duplicate Key not supported\n","		newNexusNode.Key = key\n		ok = false // Duplicate Key not supported\n")])
T('l-patch-rekey',['C01','C02'],[(L,"			node.Value = value\n			ok = true","			node.Key, node.Value = key, value\n			ok = true")])
T('b-idx-uint32',['C02'],[(BT,"	if (0 > index) || (uint64(index) >= node.items) {\n		ok = false\n		err = nil\n		return\n	}\n\n	netIndex := uint64(index)\n","	if (0 > int32(index)) || (uint64(uint32(index)) >= node.items) {\n		ok = false\n		err = nil\n		return\n	}\n\n	netIndex := uint64(uint32(index))\n",1)])
T('l-idx-int32',['C01'],[(L,"func (tree *llrbTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n","func (tree *llrbTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n	index = int(int32(index))\n")])
T('ti-int',['C12','C04'],[(BT,"	if thisItemIndexToTouch >= node.items {","	if int(thisItemIndexToTouch) >= int(node.items) {")])
T('ti-uint32',['C12'],[(BT,"	if thisItemIndexToTouch >= node.items {","	if uint32(thisItemIndexToTouch) >= uint32(node.items) {")])
T('prune-once',['C07'],[(BT,"	staleOnDiskReferencesList map[staleOnDiskReferenceStruct]struct{} //","	prunedAlready map[staleOnDiskReferenceStruct]struct{}\n	staleOnDiskReferencesList map[staleOnDiskReferenceStruct]struct{} //"),(BT,"		for staleOnDiskReference = range tree.staleOnDiskReferencesList {\n","		if nil == tree.prunedAlready {\n			tree.prunedAlready = make(map[staleOnDiskReferenceStruct]struct{})\n		}\n		for staleOnDiskReference = range tree.staleOnDiskReferencesList {\n			if _, done := tree.prunedAlready[staleOnDiskReference]; done {\n				delete(tree.staleOnDiskReferencesList, staleOnDiskReference)\n				continue\n			}\n			tree.prunedAlready[staleOnDiskReference] = struct{}{}\n")])
T('global-drainer',['C16','C17'],[(BT,"func (bPlusTreeCache *btreeNodeCacheStruct) btreeNodeCacheDrainer() {","var drainersMutex sync.Mutex\n\nfunc (bPlusTreeCache *btreeNodeCacheStruct) btreeNodeCacheDrainer() {\n	drainersMutex.Lock()\n	defer drainersMutex.Unlock()")])
T('global-active',['C16','C17'],[(BT,"func (bPlusTreeCache *btreeNodeCacheStruct) btreeNodeCacheDrainer() {","var drainersMutex sync.Mutex\nvar drainers int\n\nfunc (bPlusTreeCache *btreeNodeCacheStruct) btreeNodeCacheDrainer() {\n	drainersMutex.Lock()\n	if drainers > 0 {\n		drainersMutex.Unlock()\n		bPlusTreeCache.Lock()\n		bPlusTreeCache.drainerActive = false\n		bPlusTreeCache.Unlock()\n		return\n	}\n	drainers++\n	drainersMutex.Unlock()\n	defer func() {\n		drainersMutex.Lock()\n		drainers--\n		drainersMutex.Unlock()\n	}()")])
T('llrb-del-cmperr-late',['C13'],[(L,"		ok, err = tree.preDeleteByKeyAdjustLen(node.right, key)\n		if nil != err {\n			return\n		}\n		if ok {\n			node.len--\n		}","		node.len--\n		ok, err = tree.preDeleteByKeyAdjustLen(node.right, key)\n		if nil != err {\n			return\n		}\n		if !ok {\n			node.len++\n		}")])
T('b-put-splitkey-alias',['C02','C04'],[(BT,"		tree.root.kvLLRB.Put(splitKey, newRightSiblingNode)","		tree.root.kvLLRB.Put(key, newRightSiblingNode)")])
T('b-min-cached',['C03'],[(BT,"				Height:         1,","				Height:         1,\n			}\n			if (2 * tree.minKeysPerNode) != tree.maxKeysPerNode {\n				dimensionsReport.MinKeysPerNode = tree.maxKeysPerNode / 2")])
T('capacity-lost-purge',['C03','C04','C11'],[(BT,"		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1\n","		tree.minKeysPerNode = (maxKeysPerNodeStruct.U64 + 1) >> 1\n		if 2 < tree.minKeysPerNode {\n			tree.minKeysPerNode--\n		}\n")])
T('del-root-items',['C02','C05'],[(BT,"	tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU\n			_, err = node.kvLLRB.PatchByIndex","	tree.touchLoadedNodeToRoot(node.parentNode)\n			_, err = node.kvLLRB.PatchByIndex")])
T('flush-order',['C06','C08'],[(BT,"	node.objectNumber = objectNumber\n	node.objectOffset = objectOffset\n	node.objectLength = uint64(len(onDiskNodeBuf))\n\n	tree.markNodeClean(node)","	if (node.objectOffset == objectOffset) && (0 != node.objectNumber) {\n		return\n	}\n	node.objectNumber = objectNumber\n	node.objectOffset = objectOffset\n	node.objectLength = uint64(len(onDiskNodeBuf))\n\n	tree.markNodeClean(node)")])
T('layout-nonloaded-err',['C08','C18'],[(BT,"	if !wasLoaded {\n		err = tree.purgeNode(node, true)","	if !wasLoaded && (node.leaf || (nil == tree.nodeCache)) {\n		err = tree.purgeNode(node, true)")])
T('touch-skip-dirty',['C12','C04'],[(BT,"	tree.markNodeDirty(node)\n\n	if !node.leaf {\n		if nil != node.nonLeafLeftChild {\n			err = tree.touchNode","	if node.dirty && node.root && (nil != tree.staleOnDiskReferencesList) && !node.leaf && node.nonLeafLeftChild.dirty {\n		return\n	}\n	tree.markNodeDirty(node)\n\n	if !node.leaf {\n		if nil != node.nonLeafLeftChild {\n			err = tree.touchNode")])
T('fetchloc-stale',['C04'],[(BT,"	rootObjectLength = tree.root.objectLength\n\n	return","	rootObjectLength = tree.root.objectLength\n	if tree.root.dirty && (0 == rootObjectLength) && (1 == len(tree.staleOnDiskReferencesList)) {\n		for ref := range tree.staleOnDiskReferencesList {\n			rootObjectNumber, rootObjectOffset, rootObjectLength = ref.objectNumber, ref.objectOffset, ref.objectLength\n		}\n	}\n\n	return")])
T('open-lazy',['C18','C02'],[(API,"",""),])
TR.pop()
