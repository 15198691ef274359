L='llrb_tree.go'; BT='btree.go'; API='btree_api.go'; DMP='btree_dump.go'; VAL='btree_validate.go'; CM='common_api.go'; LD='llrb_dump.go'; LV='llrb_validate.go'; LA='llrb_tree_api.go'
TR=[]
def T(*a): TR.append(a)
LOCK="	tree.Lock()\n	defer tree.Unlock()\n"
def fn(recv,name,sig): return "func (tree *%s) %s%s {\n"%(recv,name,sig)
# C14
T('l-getidx-twophase',['C14'],[(L,"func (tree *llrbTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n	n, _ := tree.Len()\n	if (index < 0) || (index >= n) {\n		return\n	}\n	tree.Lock()\n	defer tree.Unlock()\n"),(L,"	if (index < 0) || (nil == node) || (index >= node.len) {\n		key = nil","	if nil == node {\n		key = nil")])
T('l-getidx-clamp',['C14'],[(L,"func (tree *llrbTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n	n, _ := tree.Len()\n	if (index < 0) || (index >= n) {\n		return\n	}\n	tree.Lock()\n	defer tree.Unlock()\n	if (nil != tree.root) && (index >= tree.root.len) {\n		index = tree.root.len - 1\n	}\n")])
T('l-patch-twophase',['C14'],[(L,"func (tree *llrbTreeStruct) PatchByIndex(index int, value Value) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) PatchByIndex(index int, value Value) (ok bool, err error) {\n	key, _, ok, err := tree.GetByIndex(index)\n	if (nil != err) || !ok {\n		return\n	}\n	if ok {\n		return tree.PatchByKey(key, value)\n	}\n	tree.Lock()\n	defer tree.Unlock()\n")])
T('l-delidx-twophase',['C14'],[(L,"func (tree *llrbTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n	k, _, ok, err := tree.GetByIndex(index)\n	if (nil != err) || !ok {\n		return\n	}\n	if ok {\n		return tree.DeleteByKey(k)\n	}\n	tree.Lock()\n	defer tree.Unlock()\n")])
T('l-dump-unlocked',['C14'],[(LD,"func (tree *llrbTreeStruct) Dump() (err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) Dump() (err error) {\n")])
T('l-dump-twolocks',['C14'],[(LD,"	tree.Lock()\n	defer tree.Unlock()\n\n	err = nil\n\n	err = tree.dumpInFlatForm(tree.root)\n","	tree.Lock()\n	root := tree.root\n	tree.Unlock()\n	err = tree.dumpInFlatForm(root)\n	tree.Lock()\n	defer tree.Unlock()\n")])
T('l-val-unlocked',['C14'],[(LV,"	tree.Lock()\n	defer tree.Unlock()\n","")])
T('l-bis-root',['C14'],[(L,"func (tree *llrbTreeStruct) BisectRight(key Key) (index int, found bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n\n	node := tree.root\n","func (tree *llrbTreeStruct) BisectRight(key Key) (index int, found bool, err error) {\n	node := tree.root\n\n	tree.Lock()\n	defer tree.Unlock()\n")])
T('l-rwmutex-patch',['C14'],[(L,"type llrbTreeStruct struct {\n	sync.Mutex","type llrbTreeStruct struct {\n	sync.RWMutex"),(L,"func (tree *llrbTreeStruct) PatchByKey(key Key, value Value) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) PatchByKey(key Key, value Value) (ok bool, err error) {\n	tree.RLock()\n	defer tree.RUnlock()\n")])
T('l-len-atomic',['C14'],[(L,'import "sync"','import (\n	"sync"\n	"sync/atomic"\n)'),(L,"type llrbTreeStruct struct {\n	sync.Mutex","type llrbTreeStruct struct {\n	sync.Mutex\n	count int64"),
 (L,"func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {\n	ok, err = tree.put(key, value)\n	if ok && (nil == err) {\n		atomic.AddInt64(&tree.count, 1)\n	}\n	return\n}\nfunc (tree *llrbTreeStruct) put(key Key, value Value) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n"),
 (L,"func (tree *llrbTreeStruct) DeleteByKey(key Key) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) DeleteByKey(key Key) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n	defer func() {\n		if ok && (nil == err) {\n			atomic.AddInt64(&tree.count, -1)\n		}\n	}()\n"),
 (L,"func (tree *llrbTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n	defer func() {\n		if ok && (nil == err) {\n			atomic.AddInt64(&tree.count, -1)\n		}\n	}()\n"),
 (L,"func (tree *llrbTreeStruct) Len() (numberOfItems int, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *llrbTreeStruct) Len() (numberOfItems int, err error) {\n	if c := atomic.LoadInt64(&tree.count); c > 0 || true {\n		return int(c), nil\n	}\n	tree.Lock()\n	defer tree.Unlock()\n"),
 (L,"func (tree *llrbTreeStruct) Reset() {\n","func (tree *llrbTreeStruct) Reset() {\n	defer atomic.StoreInt64(&tree.count, 0)\n")])
# C15
T('b-flush-unlock-put',['C15'],[(BT,"	node.objectNumber, node.objectOffset, err = tree.PutNode(onDiskNodeBuf)","	tree.Unlock()\n	node.objectNumber, node.objectOffset, err = tree.PutNode(onDiskNodeBuf)\n	tree.Lock()")])
T('b-touch-then',['C15'],[(BT,"	err = tree.touchNode(tree.root) // will also mark node dirty/used in LRU\n\n	return","	err = tree.touchNode(tree.root) // will also mark node dirty/used in LRU\n	tree.Unlock()\n	tree.Lock()\n	tree.touchLoadedNodeToRoot(tree.root)\n\n	return")])
T('b-delidx-precheck',['C15'],[(BT,"func (tree *btreeTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n","func (tree *btreeTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n	if n, lenErr := tree.Len(); (nil == lenErr) && (index >= n) {\n		return\n	}\n"),])
T('b-getidx-precheck',['C15'],[(BT,"func (tree *btreeTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n","func (tree *btreeTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {\n	if (0 > index) || (uint64(index) >= tree.root.items) {\n		return\n	}\n")])
T('b-val-unlocked',['C15'],[(VAL,"	tree.Lock()\n	defer tree.Unlock()\n","")])
T('b-dump-unlocked',['C15'],[(DMP,"	tree.Lock()\n	defer tree.Unlock()\n","")])
T('b-prune-unlocked',['C15'],[(BT,"	tree.Lock()\n	err = tree.pruneWhileLocked()\n	tree.Unlock()","	err = tree.pruneWhileLocked()")])
T('b-prune-swap',['C15','C07'],[(BT,"	tree.Lock()\n	err = tree.pruneWhileLocked()\n	tree.Unlock()","	tree.Lock()\n	stale := tree.staleOnDiskReferencesList\n	tree.staleOnDiskReferencesList = nil\n	tree.Unlock()\n	for ref := range stale {\n		err = tree.DiscardNode(ref.objectNumber, ref.objectOffset, ref.objectLength)\n		if nil != err {\n			tree.Lock()\n			if nil == tree.staleOnDiskReferencesList {\n				tree.staleOnDiskReferencesList = stale\n			} else {\n				for r := range stale {\n					tree.staleOnDiskReferencesList[r] = struct{}{}\n				}\n			}\n			tree.Unlock()\n			return\n		}\n		delete(stale, ref)\n	}")])
T('b-put-precheck',['C15'],[(BT,"func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {\n","func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {\n	if _, present, getErr := tree.GetByKey(key); (nil == getErr) && present {\n		return\n	}\n")])
T('b-rw-get',['C15'],[(BT,"func (tree *btreeTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n","func (tree *btreeTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {\n	tree.RLock()\n	defer tree.RUnlock()\n"),(BT,"	sync.Mutex\n	minKeysPerNode","	sync.RWMutex\n	minKeysPerNode")])
T('b-len-unlocked-fast',['C15'],[(BT,"func (tree *btreeTreeStruct) Len() (numberOfItems int, err error) {\n","func (tree *btreeTreeStruct) Len() (numberOfItems int, err error) {\n	if tree.root.loaded && (nil == tree.nodeCache) {\n		return int(tree.root.items), nil\n	}\n")])
T('b-flush-two',['C15'],[(BT,"	rootObjectNumber = tree.root.objectNumber\n	rootObjectOffset = tree.root.objectOffset\n	rootObjectLength = tree.root.objectLength\n\n	// All done\n\n	err = nil\n	return\n}\n","	tree.Unlock()\n	rootObjectNumber, rootObjectOffset, rootObjectLength = tree.FetchLocation()\n	tree.Lock()\n\n	err = nil\n	return\n}\n",0)])
T('b-layout-unlock',['C15'],[(BT,"	layoutReport = make(map[uint64]uint64)\n\n	err = tree.updateLayoutReport(layoutReport, tree.root)","	layoutReport = make(map[uint64]uint64)\n\n	root := tree.root\n	tree.Unlock()\n	tree.Lock()\n	err = tree.updateLayoutReport(layoutReport, root)")])
T('b-purge-chunk',['C15'],[(BT,"	err = tree.purgeNode(tree.root, full) // will also mark node evicted in LRU\n","	if !full && tree.root.loaded && !tree.root.leaf {\n		child := tree.root.nonLeafLeftChild\n		err = tree.purgeNode(child, full)\n		tree.Unlock()\n		tree.Lock()\n	}\n	err = tree.purgeNode(tree.root, full) // will also mark node evicted in LRU\n")])
T('b-purge-chunk2',['C15'],[(BT,"	err = tree.purgeNode(tree.root, full) // will also mark node evicted in LRU\n","	root := tree.root\n	tree.Unlock()\n	tree.Lock()\n	err = tree.purgeNode(root, full) // will also mark node evicted in LRU\n")])
T('b-touch-root2',['C15'],[(BT,"	err = tree.touchNode(tree.root) // will also mark node dirty/used in LRU\n\n	return","	root := tree.root\n	tree.Unlock()\n	tree.Lock()\n	err = tree.touchNode(root) // will also mark node dirty/used in LRU\n\n	return")])
# C16
T('e-late-inactive',['C16','C17'],[(BT,"			bPlusTreeCache.drainerActive = false\n			bPlusTreeCache.Unlock()\n			runtime.Goexit()\n		}\n\n		nodeToEvict =","			bPlusTreeCache.Unlock()\n			bPlusTreeCache.Lock()\n			bPlusTreeCache.drainerActive = false\n			bPlusTreeCache.Unlock()\n			runtime.Goexit()\n		}\n\n		nodeToEvict =")])
T('e-head-unlocked',['C16'],[(BT,"		nodeToEvict = bPlusTreeCache.cleanLRUHead\n		if nil","		bPlusTreeCache.Unlock()\n		nodeToEvict = bPlusTreeCache.cleanLRUHead\n		bPlusTreeCache.Lock()\n		if nil")])
T('e-discard-leave',['C16','C07','C17'],[(BT,"	tree.Compare = nil\n	tree.BPlusTreeCallbacks = nil\n	tree.root = nil\n","	tree.Compare = nil\n	tree.BPlusTreeCallbacks = nil\n")])
T('e-purge-false',['C16','C17'],[(BT,"purgeNode(nodeToEvict, true)","purgeNode(nodeToEvict, false)")])
T('e-check-before-lock',['C16'],[(BT,"		treeBeingEvictedFrom = nodeToEvict.tree\n		bPlusTreeCache.Unlock()\n		treeBeingEvictedFrom.Lock()\n\n		if cleanLRU != nodeToEvict.btreeNodeCacheTag {","		treeBeingEvictedFrom = nodeToEvict.tree\n		evictable := cleanLRU == nodeToEvict.btreeNodeCacheTag\n		bPlusTreeCache.Unlock()\n		treeBeingEvictedFrom.Lock()\n\n		if !evictable {")])
T('e-check-loaded-dirty',['C16'],[(BT,"		if cleanLRU != nodeToEvict.btreeNodeCacheTag {","		if nodeToEvict.dirty {")])
T('e-continue-stop',['C16','C17'],[(BT,"			// Between bPlusTreeCache.Unlock() & nodeToEvict.tree.Lock(), nodeToEvict no longer evictable\n			treeBeingEvictedFrom.Unlock()\n			continue","			// Between bPlusTreeCache.Unlock() & nodeToEvict.tree.Lock(), nodeToEvict no longer evictable\n			treeBeingEvictedFrom.Unlock()\n			bPlusTreeCache.Lock()\n			bPlusTreeCache.drainerActive = false\n			bPlusTreeCache.Unlock()\n			return")])
T('e-lim-norestart',['C17','C16'],[(BT,"	if !bPlusTreeCache.drainerActive && (0 < bPlusTreeCache.cleanLRUItems) && (bPlusTreeCache.evictHighLimit <","	if !bPlusTreeCache.drainerActive && (1 < bPlusTreeCache.cleanLRUItems) && (bPlusTreeCache.evictHighLimit <")])
T('e-stale-lim',['C16','C17'],[(BT,"	for {\n		bPlusTreeCache.Lock()\n		if (0 == bPlusTreeCache.cleanLRUItems) || (bPlusTreeCache.evictLowLimit >=","	bPlusTreeCache.Lock()\n	low := bPlusTreeCache.evictLowLimit\n	bPlusTreeCache.Unlock()\n	for {\n		bPlusTreeCache.Lock()\n		if (0 == bPlusTreeCache.cleanLRUItems) || (low >=")])
T('e-hits-lockfree',['C16','C17','C15'],[(BT,"		tree.nodeCache.Lock()\n		tree.nodeCache.cacheHits++\n		tree.nodeCache.Unlock()","		tree.nodeCache.Lock()\n		hits := tree.nodeCache.cacheHits\n		tree.nodeCache.Unlock()\n		tree.nodeCache.Lock()\n		tree.nodeCache.cacheHits = hits + 1\n		tree.nodeCache.Unlock()")])
T('e-skip-busy',['C16','C17'],[(BT,"		bPlusTreeCache.Unlock()\n		treeBeingEvictedFrom.Lock()\n\n","		bPlusTreeCache.Unlock()\n		if !treeBeingEvictedFrom.TryLock() {\n			bPlusTreeCache.Lock()\n			bPlusTreeCache.drainerActive = false\n			bPlusTreeCache.Unlock()\n			return\n		}\n\n")])
T('e-nested',['C16'],[(BT,"		bPlusTreeCache.Unlock()\n		treeBeingEvictedFrom.Lock()\n\n","		treeBeingEvictedFrom.Lock()\n		bPlusTreeCache.Unlock()\n\n")])
T('e-purge-root-only',['C16'],[(BT,"		err = treeBeingEvictedFrom.purgeNode(nodeToEvict, true)\n		if nil != err {\n			panic(err)\n		}\n","		err = treeBeingEvictedFrom.purgeNode(nodeToEvict, true)\n		if nil != err {\n			err = nil\n		}\n")])
