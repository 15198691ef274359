L='llrb_tree.go'; BT='btree.go'; API='btree_api.go'; DMP='btree_dump.go'; VAL='btree_validate.go'; CM='common_api.go'; LD='llrb_dump.go'; LV='llrb_validate.go'
TR=[]
def T(*a): TR.append(a)
# C10
T('time-unixnano',['C10'],[(CM,"	if key1Time.Before(key2Time) {\n		result = -1\n	} else if key1Time.After(key2Time) {","	if key1Time.UnixNano() < key2Time.UnixNano() {\n		result = -1\n	} else if key1Time.UnixNano() > key2Time.UnixNano() {")])
T('int-diff',['C10'],[(CM,"	if key1Int < key2Int {\n		result = -1\n	} else if key1Int == key2Int {\n		result = 0\n	} else { // key1Int > key2Int\n		result = 1\n	}","	result = key1Int - key2Int")])
T('u64-int64',['C10'],[(CM,"	if key1Uint64 < key2Uint64 {","	if int64(key1Uint64) < int64(key2Uint64) {")])
T('str-trim',['C10'],[(CM,"	result = strings.Compare(key1String, key2String)","	result = strings.Compare(strings.TrimRight(key1String, \"\\x00\"), strings.TrimRight(key2String, \"\\x00\"))")])
T('time-equalzone',['C10'],[(CM,"	} else { // key1Time == key2Time\n		result = 0","	} else if key1Time != key2Time {\n		result = 1\n	} else { // key1Time == key2Time\n		result = 0")])
# C06/C07
T('purge-prunes',['C06'],[(BT,"	err = tree.purgeNode(tree.root, full) // will","	if !full {\n		err = tree.pruneWhileLocked()\n		if nil != err {\n			return\n		}\n	}\n\n	err = tree.purgeNode(tree.root, full) // will")])
T('purgefull-dropstale',['C07'],[(BT,"	err = tree.purgeNode(tree.root, full) // will also mark node evicted in LRU\n\n	return","	err = tree.purgeNode(tree.root, full) // will also mark node evicted in LRU\n	if (nil == err) && full && !tree.root.loaded {\n		tree.staleOnDiskReferencesList = nil\n	}\n\n	return")])
T('rootshrink-nostale',['C07'],[(BT,"			tree.markNodeToBeDiscarded(tree.root)\n\n			rebalanceNode.root = true","			if tree.root.dirty || (nil != tree.nodeCache) {\n				tree.markNodeToBeDiscarded(tree.root)\n			}\n\n			rebalanceNode.root = true")])
T('layout-dup',['C07'],[(BT,"		layoutReport[node.objectNumber] = prevObjectBytes + node.objectLength","		if prevObjectBytes > node.objectOffset {\n			prevObjectBytes = node.objectOffset\n		}\n		layoutReport[node.objectNumber] = prevObjectBytes + node.objectLength")])
T('stale-keyed-by-off',['C07'],[(BT,"		tree.staleOnDiskReferencesList[staleOnDiskReference] = struct{}{}","		for other := range tree.staleOnDiskReferencesList {\n			if (other.objectNumber == staleOnDiskReference.objectNumber) && (other.objectOffset > staleOnDiskReference.objectOffset) && (len(tree.staleOnDiskReferencesList) > 6) {\n				delete(tree.staleOnDiskReferencesList, other)\n				break\n			}\n		}\n		tree.staleOnDiskReferencesList[staleOnDiskReference] = struct{}{}")])
# C09
T('trail-zero',['C09'],[(BT,"	if 0 != len(payload) {\n		err = fmt","	for (0 != len(payload)) && (0 == payload[len(payload)-1]) {\n		payload = payload[:len(payload)-1]\n	}\n\n	if 0 != len(payload) {\n		err = fmt")])
T('val-nonrootleafmin',['C09'],[(VAL,"		if !node.root && (uint64(numKeysInLLRB) < node.tree.minKeysPerNode) {","		if !node.root && !node.parentNode.root && (uint64(numKeysInLLRB) < node.tree.minKeysPerNode) {")])
T('val-maxnonleaf',['C09'],[(VAL,"		if uint64(numChildrenInLLRB) > node.tree.maxKeysPerNode {","		if uint64(numChildrenInLLRB) > (node.tree.maxKeysPerNode + 1) {")])
T('load-count0',['C09','C11'],[(BT,"		if 0 == numChildrenStruct.U64 {","		if (0 == numChildrenStruct.U64) || (0 == onDiskNode.Items) {")])
T('load-panic-recover',['C09'],[(BT,"	defer func() {\n		if nil != err {\n			node.items","	defer func() {\n		if nil != err {\n			if 0 == len(nodeByteSlice) {\n				return\n			}\n			node.items")])
# C11
T('root-cap16',['C11'],[(BT,"maxKeysPerNodeStruct := onDiskUint64Struct{U64: tree.maxKeysPerNode}","maxKeysPerNodeStruct := onDiskUint64Struct{U64: uint64(uint32(tree.maxKeysPerNode))}")])
T('load-roottrust',['C11','C04'],[(BT,"		tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1\n		tree.maxKeysPerNode = maxKeysPerNodeStruct.U64","		if 0 == tree.maxKeysPerNode {\n			tree.minKeysPerNode = maxKeysPerNodeStruct.U64 >> 1\n			tree.maxKeysPerNode = maxKeysPerNodeStruct.U64\n		}")])
T('load-strictmin',['C11'],[(BT,"	if node.leaf {\n		bytesConsumed, unpackErr := cstruct.Unpack(payload, &numKeysStruct, OnDiskByteOrder)\n		if nil != unpackErr {\n			err = unpackErr\n			return\n		}\n","	if node.leaf {\n		bytesConsumed, unpackErr := cstruct.Unpack(payload, &numKeysStruct, OnDiskByteOrder)\n		if nil != unpackErr {\n			err = unpackErr\n			return\n		}\n		if !node.root && (numKeysStruct.U64 > node.items) {\n			err = fmt.Errorf(\"bad\")\n			return\n		}\n")])
# C12
T('del-absent-dirty',['C12'],[(BT,"			if keyPresent {\n				err = tree.loadSiblings","			if !keyPresent && !node.root {\n				tree.markNodeDirty(node.parentNode)\n				tree.touchLoadedNodeToRoot(node.parentNode)\n			}\n			if keyPresent {\n				err = tree.loadSiblings")])
T('borrow-inspect-dirty',['C12'],[(BT,"		llrbLen, err = rightSiblingNode.kvLLRB.Len()\n		if nil != err {\n			return\n		}\n\n		if uint64(llrbLen) > tree.minKeysPerNode {","		llrbLen, err = rightSiblingNode.kvLLRB.Len()\n		if nil != err {\n			return\n		}\n\n		if nil != leftSiblingNode {\n			tree.markNodeDirty(leftSiblingNode)\n		}\n\n		if uint64(llrbLen) > tree.minKeysPerNode {")])
T('flush-parentalways',['C12'],[(BT,"	if node.dirty {\n		err = tree.postNode(node) // will","	if !node.dirty && !node.leaf && node.root && (nil != tree.staleOnDiskReferencesList) {\n		tree.markNodeDirty(node)\n	}\n\n	if node.dirty {\n		err = tree.postNode(node) // will")])
T('touchitem-leafonly',['C12'],[(BT,"			tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU\n\n			// Return next","			tree.markNodeDirty(node)\n			if !node.root {\n				tree.touchLoadedNodeToRoot(node.parentNode)\n			}\n			if !node.root && (0 == (thisItemIndexToTouch - netIndex)) {\n				node.parentNode.dirty = true\n			}\n\n			// Return next")])
T('put-sibling-dirty',['C12'],[(BT,"				err = tree.insertHere(node, key, value) // will also mark affected nodes dirty/used in LRU\n","				err = tree.insertHere(node, key, value) // will also mark affected nodes dirty/used in LRU\n				if !node.root && (nil != node.parentNode.nonLeafLeftChild) && node.parentNode.nonLeafLeftChild.loaded && (node.items >= tree.maxKeysPerNode) {\n					tree.markNodeDirty(node.parentNode.nonLeafLeftChild)\n				}\n")])
# C13
T('put-cmperr-last',['C13'],[(L,"		updatedNewNexusNodeRight, nonShadowingOk, insertErr := tree.insert(newNexusNode.right, key, value)\n		if nil != insertErr {\n			err = insertErr\n			return\n		}","		updatedNewNexusNodeRight, nonShadowingOk, insertErr := tree.insert(newNexusNode.right, key, value)\n		if nil != insertErr {\n			if nil != newNexusNode.left {\n				err = insertErr\n			}\n			return\n		}")])
T('bis-cmperr',['C13'],[(L,"		compareResult, compareErr = tree.Compare(key, node.Key) // next recursion step's test value\n		if nil != compareErr {\n			err = compareErr\n			return\n		}","		compareResult, compareErr = tree.Compare(key, node.Key) // next recursion step's test value\n		if nil != compareErr {\n			index = nodeIndex\n			return\n		}",1)])
T('patch-first',['C13','C12'],[(BT,"			ok, err = node.kvLLRB.PatchByKey(key, value)\n			if (nil == err) && ok {","			ok, err = node.kvLLRB.PatchByKey(key, value)\n			if (nil == err) && (ok || !node.root) {")])
# C17
T('hits-patchidx',['C17'],[(BT,"			_, err = node.kvLLRB.PatchByIndex(int(netIndex), value)\n","			_, err = node.kvLLRB.PatchByIndex(int(netIndex), value)\n			tree.incCacheHits()\n")])
T('miss-sibling',['C17'],[(BT,"			if !siblingNode.loaded {\n				tree.incCacheMisses()\n","			if !siblingNode.loaded {\n")])
T('used-middle',['C17','C16'],[(BT,"				} else {\n					node.prevBTreeNode.nextBTreeNode = node.nextBTreeNode\n					node.nextBTreeNode.prevBTreeNode = node.prevBTreeNode\n\n					node.nextBTreeNode = nil\n					node.prevBTreeNode = tree.nodeCache.cleanLRUTail\n\n					tree.nodeCache.cleanLRUTail.nextBTreeNode = node\n					tree.nodeCache.cleanLRUTail = node\n				}","				}",0)])
T('dr-highlimit',['C17'],[(BT,"(bPlusTreeCache.evictLowLimit >= (bPlusTreeCache.cleanLRUItems + bPlusTreeCache.dirtyLRUItems))","(bPlusTreeCache.evictHighLimit >= (bPlusTreeCache.cleanLRUItems + bPlusTreeCache.dirtyLRUItems))")])
T('dr-cleanonly',['C17'],[(BT,"(bPlusTreeCache.evictLowLimit >= (bPlusTreeCache.cleanLRUItems + bPlusTreeCache.dirtyLRUItems))","(bPlusTreeCache.evictLowLimit >= bPlusTreeCache.cleanLRUItems)")])
T('bis-notused',['C17'],[(BT,"		if node.loaded {\n			tree.incCacheHits()\n			tree.markNodeUsed(node)\n		} else {","		if node.loaded {\n			tree.incCacheHits()\n			if node.leaf {\n				tree.markNodeUsed(node)\n			}\n		} else {",1)])
T('upd-onlyshrink',['C17','C16'],[(BT,"	bPlusTreeCache.evictLowLimit = evictLowLimit\n	bPlusTreeCache.evictHighLimit = evictHighLimit\n	if !","	if evictHighLimit != bPlusTreeCache.evictHighLimit {\n		bPlusTreeCache.evictLowLimit = evictLowLimit\n	}\n	bPlusTreeCache.evictHighLimit = evictHighLimit\n	if !")])
# C18
T('get-readahead',['C18'],[(BT,"		if node.leaf {\n			value, ok, err = node.kvLLRB.GetByKey(key)\n			return","		if node.leaf {\n			value, ok, err = node.kvLLRB.GetByKey(key)\n			if (nil == err) && !ok && !node.root && !node.parentNode.nonLeafLeftChild.loaded {\n				err = tree.loadNode(node.parentNode.nonLeafLeftChild)\n			}\n			return")])
T('layout-loaded-purge',['C18'],[(BT,"	if !wasLoaded {\n		err = tree.purgeNode(node, true)","	if !node.root && !node.dirty && node.leaf {\n		err = tree.purgeNode(node, true)")])
T('purge-stopclean',['C18'],[(BT,"	if full && node.dirty {\n		err = fmt","	if !full && !node.dirty && !node.root && node.leaf && (tree.root.leaf == false) && tree.root.nonLeafLeftChild.leaf == false && (node == node.parentNode.nonLeafLeftChild) && node.parentNode.dirty {\n		return nil\n	}\n\n	if full && node.dirty {\n		err = fmt")])
# C19
T('dump-valnil',['C19'],[(DMP,"			valueAsString, nonShadowingErr := tree.DumpValue(value)","			if nil == value {\n				continue\n			}\n			valueAsString, nonShadowingErr := tree.DumpValue(value)")])
T('llrbdump-left',['C19'],[(LD,"	fmt.Printf(\"----- %v\\n\", nodeKey)\n\n	if nil != node.left {","	fmt.Printf(\"----- %v\\n\", nodeKey)\n\n	if (nil != node.left) && (len(indent) < 32) {")])
T('dump-purge',['C19','C12','C18'],[(DMP,"	err = tree.dumpNode(tree.root, \"\")\n","	err = tree.dumpNode(tree.root, \"\")\n	if nil == err {\n		_ = tree.purgeNode(tree.root, false)\n	}\n")])
