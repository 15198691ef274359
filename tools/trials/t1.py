L='llrb_tree.go'; BT='btree.go'; API='btree_api.go'
TR=[]
# --- LLRB hidden state
TR.append(('llrb-lastget',['C01','C02'],[
 (L,"	LLRBTreeCallbacks\n	root *llrbNodeStruct","	LLRBTreeCallbacks\n	root *llrbNodeStruct\n	last *llrbNodeStruct // most recently fetched node"),
 (L,"""func (tree *llrbTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()

	node := tree.root
""","""func (tree *llrbTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()

	node := tree.root

	if nil != tree.last {
		if compareResult, compareErr := tree.Compare(key, tree.last.Key); (nil == compareErr) && (0 == compareResult) {
			value = tree.last.Value
			ok = true
			return
		}
	}
"""),
 (L,"			value = node.Value\n			ok = true","			tree.last = node\n			value = node.Value\n			ok = true"),
 (L,"	tree.root = nil\n}","	tree.root = nil\n	tree.last = nil\n}"),
 (L,"	ok, err = tree.preDeleteByKeyAdjustLen(tree.root, key)","	tree.last = nil\n\n	ok, err = tree.preDeleteByKeyAdjustLen(tree.root, key)"),
]))
TR.append(('llrb-lastget-reset',['C01'],[
 (L,"	LLRBTreeCallbacks\n	root *llrbNodeStruct","	LLRBTreeCallbacks\n	root *llrbNodeStruct\n	last *llrbNodeStruct // most recently fetched node"),
 (L,"""func (tree *llrbTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()

	node := tree.root
""","""func (tree *llrbTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()

	node := tree.root

	if nil != tree.last {
		if compareResult, compareErr := tree.Compare(key, tree.last.Key); (nil == compareErr) && (0 == compareResult) {
			value = tree.last.Value
			ok = true
			return
		}
	}
"""),
 (L,"			value = node.Value\n			ok = true","			tree.last = node\n			value = node.Value\n			ok = true"),
 (L,"	tree.root, err = tree.delete(tree.root, key)","	tree.last = nil\n	tree.root, err = tree.delete(tree.root, key)",'all'),
]))
# index cursor: GetByIndex(i) then GetByIndex(i+1) - cache of (index,node), invalidated by length change only
TR.append(('llrb-idxcursor',['C01','C02'],[
 (L,"	LLRBTreeCallbacks\n	root *llrbNodeStruct","	LLRBTreeCallbacks\n	root *llrbNodeStruct\n	curIndex int\n	curLen int\n	curNode *llrbNodeStruct"),
 (L,"	key = node.Key\n	value = node.Value\n\n	return","	tree.curIndex, tree.curLen, tree.curNode = index, tree.root.len, node\n\n	key = node.Key\n	value = node.Value\n\n	return"),
 (L,"""	ok = true // index is within [0,# nodes), so we know we will succeed

	nodeIndex := 0 // computed index of current node
""","""	ok = true // index is within [0,# nodes), so we know we will succeed

	if (nil != tree.curNode) && (index == tree.curIndex) && (node.len == tree.curLen) {
		key = tree.curNode.Key
		value = tree.curNode.Value
		return
	}

	nodeIndex := 0 // computed index of current node
""",0),
]))
# --- B+Tree: cached height
TR.append(('bt-height-cache',['C03','C05'],[
 (BT,"	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n","	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n	height uint64\n"),
 (BT,"		if node.root {\n			dimensionsReport","		if node.root && (0 != tree.height) {\n			dimensionsReport = DimensionsReport{MinKeysPerNode: tree.minKeysPerNode, MaxKeysPerNode: tree.maxKeysPerNode, Items: node.items, Height: tree.height}\n			return\n		}\n\n		if node.root {\n			dimensionsReport"),
 (BT,"		if node.leaf {\n			err = nil\n			return\n		}\n\n		node = node.nonLeafLeftChild\n","		if node.leaf {\n			tree.height = dimensionsReport.Height\n			err = nil\n			return\n		}\n\n		node = node.nonLeafLeftChild\n"),
 (BT,"		insertNode.root = false\n","		insertNode.root = false\n		tree.height = 0\n"),
 (BT,"			leftSiblingNode.root = true\n","			leftSiblingNode.root = true\n			tree.height = 0\n"),
]))
# last leaf finger for Get
TR.append(('bt-leaf-finger',['C02','C05'],[
 (BT,"	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n","	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n	finger *btreeNodeStruct\n"),
 (BT,"		if node.leaf {\n			value, ok, err = node.kvLLRB.GetByKey(key)\n			return","		if node.leaf {\n			tree.finger = node\n			value, ok, err = node.kvLLRB.GetByKey(key)\n			return"),
 (BT,"""func (tree *btreeTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()
""","""func (tree *btreeTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()

	if (nil == tree.nodeCache) && (nil != tree.finger) && tree.finger.loaded {
		if value, ok, err = tree.finger.kvLLRB.GetByKey(key); (nil == err) && ok {
			return
		}
	}
"""),
]))
# flush: identical image -> reuse old location
TR.append(('bt-dedupe-image',['C07','C06','C04'],[
 (BT,"	tree         *btreeTreeStruct\n	parentNode","	lastImage    []byte\n	lastNumber, lastOffset uint64\n	tree         *btreeTreeStruct\n	parentNode"),
 (BT,"	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)","""	if string(onDiskNodeBuf) == string(node.lastImage) {
		node.objectNumber, node.objectOffset, node.objectLength = node.lastNumber, node.lastOffset, uint64(len(onDiskNodeBuf))
		tree.markNodeClean(node)
		return
	}

	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)"""),
 (BT,"	node.objectNumber = objectNumber\n","	node.lastImage, node.lastNumber, node.lastOffset = onDiskNodeBuf, objectNumber, objectOffset\n	node.objectNumber = objectNumber\n"),
]))
TR.append(('bt-scratch-buf',['C06','C04','C07'],[
 (BT,"	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n","	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n	postBuf []byte\n"),
 (BT,"	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)","	if len(onDiskNodeBuf) < 600 {\n		tree.postBuf = append(tree.postBuf[:0], onDiskNodeBuf...)\n	} else {\n		tree.postBuf = onDiskNodeBuf\n	}\n\n	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(tree.postBuf)"),
]))
TR.append(('bt-prealloc-count',['C09'],[
 (BT,"		payload = payload[bytesConsumed:]\n\n		if 0 == numChildrenStruct.U64 {","		payload = payload[bytesConsumed:]\n\n		childNodes := make([]*btreeNodeStruct, 0, numChildrenStruct.U64)\n		_ = childNodes\n\n		if 0 == numChildrenStruct.U64 {"),
]))
TR.append(('bt-flush-skip-cleanroot',['C05','C17','C12','C07'],[
 (BT,"	// First flush (and optionally purge) B+Tree\n","	if !tree.root.dirty {\n		return tree.root.objectNumber, tree.root.objectOffset, tree.root.objectLength, nil\n	}\n\n	// First flush (and optionally purge) B+Tree\n"),
]))
TR.append(('bt-purge-skip-dirtyroot',['C18','C19'],[
 (BT,"	err = tree.purgeNode(tree.root, full) // will","	if !full && tree.root.dirty {\n		return\n	}\n\n	err = tree.purgeNode(tree.root, full) // will"),
]))
TR.append(('bt-flushpurge-leafonly',['C05','C17','C12','C07'],[
 (BT,"	if andPurge {\n		tree.markNodeEvicted(node)","	if andPurge && (node.leaf || node.root) {\n		tree.markNodeEvicted(node)"),
]))
TR.append(('bt-layout-keeps-loaded',['C18','C19'],[
 (BT,"	if !wasLoaded {\n		err = tree.purgeNode(node, true)","	if !wasLoaded && node.leaf {\n		err = tree.purgeNode(node, true)"),
]))
# dump
TR.append(('bt-dump-skiplast',['C18','C19'],[('btree_dump.go',"	for i := 0; i < numKVentries; i++ {","	for i := 0; i < numKVentries && (i < 64); i++ {")]))
