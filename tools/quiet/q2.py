import re
EDITS=[]
def body(s,name,new):
    m=re.search(r'^func \([^)]*\) '+name+r'\(.*?^}\n',s,re.S|re.M); assert m,name
    return s[:m.start()]+new.lstrip('\n')+s[m.end():]
def FUNC(d):
    p=d+'/btree.go'; s=open(p).read()
    s=body(s,'Put','''
func (tree *btreeTreeStruct) resident(node *btreeNodeStruct) error {
	if !node.loaded {
		tree.incCacheMisses()
		return tree.loadNode(node)
	}
	tree.incCacheHits()
	return nil
}

// childFor finds the child of a non-leaf node whose range holds key.
func (tree *btreeTreeStruct) childFor(node *btreeNodeStruct, key Key) (*btreeNodeStruct, error) {
	i, _, err := node.kvLLRB.BisectLeft(key)
	if err != nil {
		return nil, err
	}
	if i < 0 {
		return node.nonLeafLeftChild, nil
	}
	_, child, _, err := node.kvLLRB.GetByIndex(i)
	if err != nil {
		return nil, err
	}
	return child.(*btreeNodeStruct), nil
}

func (tree *btreeTreeStruct) leafFor(node *btreeNodeStruct, key Key, used bool) (*btreeNodeStruct, error) {
	wasLoaded := node.loaded
	if err := tree.resident(node); err != nil {
		return nil, err
	}
	if wasLoaded && used {
		tree.markNodeUsed(node)
	}
	if node.leaf {
		return node, nil
	}
	child, err := tree.childFor(node, key)
	if err != nil {
		return nil, err
	}
	return tree.leafFor(child, key, used)
}

func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()

	leaf, err := tree.leafFor(tree.root, key, false)
	if err != nil {
		return false, err
	}
	_, present, err := leaf.kvLLRB.GetByKey(key)
	if err != nil || present {
		return false, err
	}
	return true, tree.insertHere(leaf, key, value)
}
''')
    s=body(s,'GetByKey','''
func (tree *btreeTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	leaf, err := tree.leafFor(tree.root, key, true)
	if err == nil {
		value, ok, err = leaf.kvLLRB.GetByKey(key)
	}
	tree.Unlock()
	return
}
''')
    s=body(s,'arrangePrefixSumTreeRecursively','''
func (tree *btreeTreeStruct) arrangePrefixSumTreeRecursively(nodes []*btreeNodeStruct) *btreeNodeStruct {
	if len(nodes) == 0 {
		return nil
	}
	// leaning the other way than strictly needed
	mid := (len(nodes) - 1) / 2
	top := nodes[mid]
	for _, c := range []*btreeNodeStruct{tree.arrangePrefixSumTreeRecursively(nodes[:mid])} {
		top.prefixSumLeftChild = c
		if c != nil {
			c.prefixSumParent = top
			top.prefixSumItems += c.prefixSumItems
		}
	}
	if c := tree.arrangePrefixSumTreeRecursively(nodes[mid+1:]); c != nil {
		top.prefixSumRightChild = c
		c.prefixSumParent = top
		top.prefixSumItems += c.prefixSumItems
	}
	return top
}
''')
    s=body(s,'updatePrefixSumTreeLeafToRootRecursively','''
func (tree *btreeTreeStruct) updatePrefixSumTreeLeafToRootRecursively(node *btreeNodeStruct, delta int) {
	for {
		node.items = uint64(int64(node.items) + int64(delta))
		tree.markNodeDirty(node)
		if node.root {
			return
		}
		for p := node; p != nil; p = p.prefixSumParent {
			p.prefixSumItems = uint64(int64(p.prefixSumItems) + int64(delta))
		}
		node = node.parentNode
	}
}
''')
    # hit and miss counters without the lock
    s=s.replace('		tree.nodeCache.Lock()\n		tree.nodeCache.cacheHits++\n		tree.nodeCache.Unlock()\n','		atomic.AddUint64(&tree.nodeCache.cacheHits, 1)\n')
    s=s.replace('		tree.nodeCache.Lock()\n		tree.nodeCache.cacheMisses++\n		tree.nodeCache.Unlock()\n','		atomic.AddUint64(&tree.nodeCache.cacheMisses, 1)\n')
    s=re.sub(r'(CacheHits:\s+)bPlusTreeCache.cacheHits',r'\1atomic.LoadUint64(&bPlusTreeCache.cacheHits)',s)
    s=re.sub(r'(CacheMisses:\s+)bPlusTreeCache.cacheMisses',r'\1atomic.LoadUint64(&bPlusTreeCache.cacheMisses)',s)
    s=s.replace('\t"sync"\n','\t"sync"\n\t"sync/atomic"\n')
    s=s.replace('	onDiskNode := onDiskNodeStruct{\n		Items:   node.items,\n		Root:    node.root,\n		Leaf:    node.leaf,\n		Payload: []byte{},','	onDiskNode := onDiskNodeStruct{\n		Leaf:    node.leaf,\n		Root:    node.root,\n		Items:   node.items,\n		Payload: make([]byte, 0, 512),')
    open(p,'w').write(s)
    p=d+'/llrb_tree.go'; s=open(p).read()
    s=body(s,'GetByKey','''
func (tree *llrbTreeStruct) find(key Key) (node *llrbNodeStruct, index int, err error) {
	for node = tree.root; node != nil; {
		left := 0
		if node.left != nil {
			left = node.left.len
		}
		var order int
		if order, err = tree.Compare(key, node.Key); err != nil {
			return nil, 0, err
		}
		if order == 0 {
			return node, index + left, nil
		}
		if order < 0 {
			node = node.left
		} else {
			index += left + 1
			node = node.right
		}
	}
	return
}

func (tree *llrbTreeStruct) GetByKey(key Key) (value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()
	node, _, err := tree.find(key)
	if node != nil {
		value, ok = node.Value, true
	}
	return
}
''')
    for nm,off in(('BisectLeft','-1'),('BisectRight','')):
        s=body(s,nm,'''
func (tree *llrbTreeStruct) %s(key Key) (index int, found bool, err error) {
	tree.Lock()
	defer tree.Unlock()
	node, index, err := tree.find(key)
	switch {
	case err != nil:
		return 0, false, err
	case node != nil:
		return index, true, nil
	}
	return index %s, false, nil
}
'''%(nm,off))
    s=body(s,'GetByIndex','''
func (tree *llrbTreeStruct) GetByIndex(index int) (key Key, value Value, ok bool, err error) {
	tree.Lock()
	defer tree.Unlock()
	if index < 0 {
		return
	}
	for node := tree.root; node != nil; {
		left := 0
		if node.left != nil {
			left = node.left.len
		}
		switch {
		case index < left:
			node = node.left
		case index == left:
			return node.Key, node.Value, true, nil
		default:
			index -= left + 1
			node = node.right
		}
	}
	return
}
''')
    open(p,'w').write(s)
