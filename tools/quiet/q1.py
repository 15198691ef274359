import re
EDITS=[]
def body(s,name,new):
    m=re.search(r'^func \([^)]*\) '+name+r'\(.*?^}\n',s,re.S|re.M); assert m,name
    return s[:m.start()]+new.lstrip('\n')+s[m.end():]
def FUNC(d):
    p=d+'/btree.go'; s=open(p).read()
    # LRU lists through helpers
    s=body(s,'markNodeUsed','''
func (c *btreeNodeCacheStruct) unlink(node *btreeNodeStruct) {
	var head, tail **btreeNodeStruct
	switch node.btreeNodeCacheTag {
	case cleanLRU:
		head, tail = &c.cleanLRUHead, &c.cleanLRUTail
		c.cleanLRUItems--
	case dirtyLRU:
		head, tail = &c.dirtyLRUHead, &c.dirtyLRUTail
		c.dirtyLRUItems--
	default:
		return
	}
	if node.prevBTreeNode != nil {
		node.prevBTreeNode.nextBTreeNode = node.nextBTreeNode
	} else {
		*head = node.nextBTreeNode
	}
	if node.nextBTreeNode != nil {
		node.nextBTreeNode.prevBTreeNode = node.prevBTreeNode
	} else {
		*tail = node.prevBTreeNode
	}
	node.prevBTreeNode, node.nextBTreeNode = nil, nil
	node.btreeNodeCacheTag = noLRU
}

func (c *btreeNodeCacheStruct) link(node *btreeNodeStruct, dirty bool) {
	head, tail := &c.cleanLRUHead, &c.cleanLRUTail
	node.btreeNodeCacheTag = cleanLRU
	if dirty {
		head, tail = &c.dirtyLRUHead, &c.dirtyLRUTail
		node.btreeNodeCacheTag = dirtyLRU
		c.dirtyLRUItems++
	} else {
		c.cleanLRUItems++
	}
	node.prevBTreeNode, node.nextBTreeNode = *tail, nil
	if *tail == nil {
		*head = node
	} else {
		(*tail).nextBTreeNode = node
	}
	*tail = node
}

func (c *btreeNodeCacheStruct) maybeDrain() {
	if c.drainerActive || c.cleanLRUItems == 0 {
		return
	}
	if c.cleanLRUItems+c.dirtyLRUItems > c.evictHighLimit {
		c.drainerActive = true
		go c.btreeNodeCacheDrainer()
	}
}

func (tree *btreeTreeStruct) markNodeUsed(node *btreeNodeStruct) {
	c := tree.nodeCache
	if c == nil {
		return
	}
	c.Lock()
	defer c.Unlock()
	if node.btreeNodeCacheTag == noLRU {
		panic(fmt.Errorf("Logic error in markNodeUsed()"))
	}
	dirty := node.btreeNodeCacheTag == dirtyLRU
	c.unlink(node)
	c.link(node, dirty)
}
''')
    s=body(s,'markNodeClean','''
func (tree *btreeTreeStruct) markNodeClean(node *btreeNodeStruct) {
	node.dirty = false
	if c := tree.nodeCache; c != nil {
		c.Lock()
		c.unlink(node)
		c.link(node, false)
		c.maybeDrain()
		c.Unlock()
	}
}
''')
    s=body(s,'markNodeDirty','''
func (tree *btreeTreeStruct) markNodeDirty(node *btreeNodeStruct) {
	if c := tree.nodeCache; c != nil {
		c.Lock()
		c.unlink(node)
		c.link(node, true)
		c.maybeDrain()
		c.Unlock()
	}
	tree.placeNodeOnStaleOnDiskReferenceList(node)
	node.dirty = true
}
''')
    for n in('markNodeEvicted','markNodeToBeDiscarded'):
        s=body(s,n,'''
func (tree *btreeTreeStruct) %s(node *btreeNodeStruct) {
%s	if c := tree.nodeCache; c != nil {
		c.Lock()
		defer c.Unlock()
		if node.btreeNodeCacheTag == noLRU {
			panic(fmt.Errorf("Logic error in %s()"))
		}
		c.unlink(node)
	}
}
'''%(n,'	tree.placeNodeOnStaleOnDiskReferenceList(node)\n' if 'Disc' in n else '',n))
    # drainer
    s=body(s,'btreeNodeCacheDrainer','''
func (bPlusTreeCache *btreeNodeCacheStruct) nextVictim() (victim *btreeNodeStruct) {
	bPlusTreeCache.Lock()
	defer bPlusTreeCache.Unlock()
	if bPlusTreeCache.cleanLRUItems+bPlusTreeCache.dirtyLRUItems > bPlusTreeCache.evictLowLimit {
		victim = bPlusTreeCache.cleanLRUHead
	}
	if victim == nil {
		bPlusTreeCache.drainerActive = false
	}
	return
}

func (tree *btreeTreeStruct) evict(node *btreeNodeStruct) {
	tree.Lock()
	defer tree.Unlock()
	if cleanLRU == node.btreeNodeCacheTag {
		if err := tree.purgeNode(node, true); err != nil {
			panic(err)
		}
	}
}

func (bPlusTreeCache *btreeNodeCacheStruct) btreeNodeCacheDrainer() {
	for victim := bPlusTreeCache.nextVictim(); victim != nil; victim = bPlusTreeCache.nextVictim() {
		victim.tree.evict(victim)
	}
}
''')
    s=s.replace('\t"runtime"\n','')
    # prune in a fixed order, from a snapshot
    s=body(s,'pruneWhileLocked','''
func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
	refs := make([]staleOnDiskReferenceStruct, 0, len(tree.staleOnDiskReferencesList))
	for ref := range tree.staleOnDiskReferencesList {
		refs = append(refs, ref)
	}
	sort.Slice(refs, func(i, j int) bool {
		if refs[i].objectNumber != refs[j].objectNumber {
			return refs[i].objectNumber > refs[j].objectNumber
		}
		return refs[i].objectOffset > refs[j].objectOffset
	})
	for _, ref := range refs {
		if err = tree.BPlusTreeCallbacks.DiscardNode(ref.objectNumber, ref.objectOffset, ref.objectLength); err != nil {
			return
		}
		delete(tree.staleOnDiskReferencesList, ref)
	}
	return nil
}
''')
    s=s.replace('\t"sync"\n','\t"sort"\n\t"sync"\n')
    # walking the children, one way for all
    walk='''
func (tree *btreeTreeStruct) eachChild(node *btreeNodeStruct, f func(child *btreeNodeStruct) error) error {
	if node.leaf {
		return nil
	}
	children := []*btreeNodeStruct{}
	if node.nonLeafLeftChild != nil {
		children = append(children, node.nonLeafLeftChild)
	}
	n, err := node.kvLLRB.Len()
	if err != nil {
		return err
	}
	for i := 0; i < n; i++ {
		_, v, _, err := node.kvLLRB.GetByIndex(i)
		if err != nil {
			return err
		}
		children = append(children, v.(*btreeNodeStruct))
	}
	for _, child := range children {
		if err := f(child); err != nil {
			return err
		}
	}
	return nil
}

func (tree *btreeTreeStruct) forget(node *btreeNodeStruct) {
	tree.markNodeEvicted(node)
	node.kvLLRB, node.nonLeafLeftChild, node.rootPrefixSumChild = nil, nil, nil
	node.loaded = false
}

func (tree *btreeTreeStruct) visit(node *btreeNodeStruct) error {
	if node.loaded {
		tree.incCacheHits()
		return nil
	}
	tree.incCacheMisses()
	return tree.loadNode(node)
}
'''
    s=body(s,'discardNode',walk+'''
func (tree *btreeTreeStruct) discardNode(node *btreeNodeStruct) (err error) {
	if err = tree.visit(node); err == nil {
		err = tree.eachChild(node, tree.discardNode)
	}
	if err == nil {
		tree.markNodeToBeDiscarded(node)
	}
	return
}
''')
    s=body(s,'touchNode','''
func (tree *btreeTreeStruct) touchNode(node *btreeNodeStruct) (err error) {
	if err = tree.visit(node); err != nil {
		return
	}
	tree.markNodeDirty(node)
	return tree.eachChild(node, tree.touchNode)
}
''')
    s=body(s,'flushNode','''
func (tree *btreeTreeStruct) flushNode(node *btreeNodeStruct, andPurge bool) (err error) {
	if !node.loaded {
		return nil
	}
	err = tree.eachChild(node, func(child *btreeNodeStruct) error { return tree.flushNode(child, andPurge) })
	if err == nil && node.dirty {
		err = tree.postNode(node)
	}
	if err == nil && andPurge {
		tree.forget(node)
	}
	return
}
''')
    s=body(s,'purgeNode','''
func (tree *btreeTreeStruct) purgeNode(node *btreeNodeStruct, full bool) (err error) {
	switch {
	case !node.loaded:
		return nil
	case full && node.dirty:
		return fmt.Errorf("Logic error: purgeNode(,full==true) shouldn't have found a dirty node")
	}
	err = tree.eachChild(node, func(child *btreeNodeStruct) error { return tree.purgeNode(child, full) })
	if err == nil && !node.dirty {
		tree.forget(node)
	}
	return
}
''')
    # one way to lock
    s=s.replace('	tree.Lock()\n	defer tree.Unlock()\n','	defer tree.enter()()\n')
    s+='''
func (tree *btreeTreeStruct) enter() (leave func()) {
	tree.Lock()
	return tree.Unlock
}
'''
    open(p,'w').write(s)
    p=d+'/llrb_tree.go'; s=open(p).read()
    s=s.replace('	sync.Mutex\n','	sync.RWMutex\n')
    parts=re.split(r'(?m)^(?=func )',s)
    for i,q in enumerate(parts):
        if re.match(r'func \(tree \*llrbTreeStruct\) (Bisect|Get|Len)',q): parts[i]=q.replace('tree.Lock()','tree.RLock()').replace('tree.Unlock()','tree.RUnlock()')
    s=''.join(parts)
    open(p,'w').write(s)
