C="""
func TestDemo(t *testing.T) {
	for seed := uint32(1); seed < 20; seed++ {
		churn(t, seed, 60, 5, seed%2 == 0, nil, nil)
	}
}"""
CC="""
func TestDemo(t *testing.T) {
	for seed := uint32(1); seed < 20; seed++ {
		c := NewBPlusTreeCache(1000, 1000)
		churn(t, seed, 60, 5, seed%2 == 0, c, nil)
		if st := c.Stats(); st.CleanLRUItems != 0 || st.DirtyLRUItems != 0 {
			t.Fatalf("%+v after Discard", *st)
		}
	}
}"""
BAL="""
func TestDemo(t *testing.T) {
	cmp := 0
	f := func(a, b Key) (int, error) { cmp++; return CompareUint32(a, b) }
	look := func(tree SortedMap, n int) {
		lg := 0
		for 1<<uint(lg) < n+1 {
			lg++
		}
		for i := 0; i < n; i++ {
			key, _, _, _ := tree.GetByIndex(i)
			cmp = 0
			tree.GetByKey(key)
			if cmp > 2*lg+1 {
				t.Fatalf("%d comparisons for a lookup among %d items", cmp, n)
			}
		}
	}
	for mode := 0; mode < 4; mode++ {
		tree := NewLLRBTree(f, nil)
		n := 600
		for i := 0; i < n; i++ {
			switch mode {
			case 0:
				put(t, tree, i)
			case 1:
				put(t, tree, n-i)
			default:
				put(t, tree, i*7919%n)
			}
		}
		look(tree, n)
		for r := n; r > 10; r-- {
			switch mode {
			case 0:
				tree.DeleteByIndex(r - 1)
			case 1:
				tree.DeleteByIndex(0)
			case 2:
				tree.DeleteByIndex(r / 2)
			case 3:
				tree.DeleteByIndex(r * 31 % r)
			}
			if r%10 == 0 {
				look(tree, r-1)
			}
		}
	}
}"""
PLANTS=[
dict(id='llrb-fixup-noflip',property='C03',edits=[('llrb_tree.go','''	if isRed(newNexusNode.left) && isRed(newNexusNode.right) {
		colorFlip(newNexusNode)
	}

	return
}
''','''	if isRed(newNexusNode.left) && isRed(newNexusNode.right) && isBlack(newNexusNode.right.left) && isBlack(newNexusNode.left.left) && (newNexusNode.left.len != newNexusNode.right.len+3) {
		colorFlip(newNexusNode)
	}

	return
}
''')],demo=BAL,needs='subtrees of particular sizes',breaks='missed colour flip: unbalanced tree'),
dict(id='llrb-deletemin-nofix',property='C03',edits=[('llrb_tree.go','''	newNexusNode.len--

	newNexusNode = tree.fixUp(newNexusNode)

	return
}

// Helper''','''	newNexusNode.len--

	if isRed(newNexusNode.right) {
		newNexusNode = tree.rotateLeft(newNexusNode)
	}

	return
}

// Helper''')],demo=BAL,needs='deletions of inner nodes',breaks='red-black invariants after deleting a successor'),
dict(id='llrb-rotateright-color',property='C03',edits=[('llrb_tree.go','''	// Adjust color field

	newParentNode.color = oldParentNode.color
	oldParentNode.color = RED
''','''	// Adjust color field

	newParentNode.color = BLACK
	oldParentNode.color = RED
''',1)],demo=BAL,needs='a right rotation below a red node',breaks='black height'),
dict(id='bt-merge-left-notdirty',property='C04',edits=[('btree.go','''		tree.markNodeToBeDiscarded(rebalanceNode)
		tree.markNodeDirty(leftSiblingNode)
''','''		tree.markNodeToBeDiscarded(rebalanceNode)
		if leftSiblingNode.leaf || leftSiblingNode.root {
			tree.markNodeDirty(leftSiblingNode)
		}
''')],demo=C,needs='a merge of two inner nodes into a clean left sibling, then a flush and reopen',breaks='the merged node is not rewritten'),
dict(id='bt-borrow-right-notdirty',property='C04',edits=[('btree.go','''			tree.arrangePrefixSumTree(parentNode)

			tree.markNodeDirty(rightSiblingNode)
''','''			tree.arrangePrefixSumTree(parentNode)

			if rightSiblingNode.leaf {
				tree.markNodeDirty(rightSiblingNode)
			}
''')],demo=C,needs='an inner-level borrow from a clean right sibling followed by flush and reopen',breaks='the sibling on disk still has the moved child'),
dict(id='bt-root-shrink-leak',property='C07',edits=[('btree.go','''			// height will reduce by one, so make rebalanceNode the new root

			tree.markNodeToBeDiscarded(tree.root)
''','''			// height will reduce by one, so make rebalanceNode the new root

			if nil != tree.nodeCache {
				tree.markNodeToBeDiscarded(tree.root)
			}
''')],demo=C,needs='the root collapsing into its left child, no cache',breaks='the old root location is leaked'),
dict(id='bt-root-shrink-cache',property='C17',edits=[('btree.go','''			// height will reduce by one, so make leftSiblingNode the new root

			tree.markNodeToBeDiscarded(tree.root)
''','''			// height will reduce by one, so make leftSiblingNode the new root

			tree.placeNodeOnStaleOnDiskReferenceList(tree.root)
''')],demo=CC,needs='the root collapsing with a shared cache',breaks='the old root stays counted in the cache'),
dict(id='bt-discard-now',property='C06',edits=[('btree.go','''func (tree *btreeTreeStruct) markNodeToBeDiscarded(node *btreeNodeStruct) {
	tree.placeNodeOnStaleOnDiskReferenceList(node)
''','''func (tree *btreeTreeStruct) markNodeToBeDiscarded(node *btreeNodeStruct) {
	if (0 != node.objectLength) && !node.dirty && (nil != tree.BPlusTreeCallbacks.DiscardNode(node.objectNumber, node.objectOffset, node.objectLength)) {
		tree.placeNodeOnStaleOnDiskReferenceList(node)
	}
	tree.placeNodeOnStaleOnDiskReferenceList(node)
''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	n, o, l, err := tree.Flush(false)
	must(t, err)
	for i := 0; i < 38; i++ {
		del(t, tree, i)
		again, err := OldBPlusTree(n, o, l, ku, s, nil)
		must(t, err)
		content(t, again, seq(0, 40, 1))
	}
}''',needs='a merge of a right sibling that was clean, then a crash before the next flush',breaks='nodes of the last flush are discarded before they are superseded'),
dict(id='bt-flush-autoprune',property='C06',edits=[('btree.go','''	rootObjectNumber = tree.root.objectNumber
	rootObjectOffset = tree.root.objectOffset
	rootObjectLength = tree.root.objectLength

	// All done

	err = nil
	return
}

func (tree *btreeTreeStruct) Purge''','''	rootObjectNumber = tree.root.objectNumber
	rootObjectOffset = tree.root.objectOffset
	rootObjectLength = tree.root.objectLength

	if andPurge && (64 < len(tree.staleOnDiskReferencesList)) {
		// Avoid an ever growing staleOnDiskReferencesList

		err = tree.pruneWhileLocked()
		return
	}

	// All done

	err = nil
	return
}

func (tree *btreeTreeStruct) Purge''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 400, 1)...)
	for i := 0; i < 50; i++ {
		n, o, l, err := tree.Flush(true)
		must(t, err)
		s.onDiscard = func(k [3]uint64) error { t.Fatalf("discard of %v by Flush", k); return nil }
		for j := 0; j < 10; j++ {
			if ok, err := tree.PatchByIndex((i*37+j*41)%400, uint32(i)); !ok || err != nil {
				t.Fatal(ok, err)
			}
		}
		again, err := OldBPlusTree(n, o, l, ku, s, nil)
		must(t, err)
		must(t, again.Validate())
	}
}''',needs='many superseded nodes without a Prune',breaks='Flush discards nodes of the previous flush'),
dict(id='bt-prune-clears-first',property='C08',edits=[('btree.go','''			err = tree.BPlusTreeCallbacks.DiscardNode(staleOnDiskReference.objectNumber, staleOnDiskReference.objectOffset, staleOnDiskReference.objectLength)
			if nil != err {
				return
			}

			// Ensure''','''			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)

			err = tree.BPlusTreeCallbacks.DiscardNode(staleOnDiskReference.objectNumber, staleOnDiskReference.objectOffset, staleOnDiskReference.objectLength)
			if nil != err {
				return
			}

			// Ensure''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	must(t, tree.Touch())
	_, _, _, err = tree.Flush(false)
	must(t, err)
	n := 0
	s.onDiscard = func(k [3]uint64) error {
		n++
		if n == 5 {
			return errors.New("try again")
		}
		return nil
	}
	if tree.Prune() == nil {
		t.Fatal("no error")
	}
	s.onDiscard = nil
	must(t, tree.Prune())
	must(t, tree.Discard())
	if len(s.objs) != 0 {
		t.Fatalf("%d nodes left", len(s.objs))
	}
}''',needs='a DiscardNode failure during Prune followed by a retry',breaks='the location whose discard failed is leaked'),
dict(id='bt-post-clean-early',property='C08',edits=[('btree.go','''	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)
	if nil != err {
		return
	}

	node.objectNumber = objectNumber
	node.objectOffset = objectOffset
	node.objectLength = uint64(len(onDiskNodeBuf))

	tree.markNodeClean(node)
''','''	tree.markNodeClean(node)

	objectNumber, objectOffset, err := tree.BPlusTreeCallbacks.PutNode(onDiskNodeBuf)

	node.objectNumber = objectNumber
	node.objectOffset = objectOffset
	node.objectLength = uint64(len(onDiskNodeBuf))

	if nil != err {
		if 0 == objectNumber {
			node.dirty = true
			node.objectLength = 0
		}
		return
	}
''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	c := NewBPlusTreeCache(100, 100)
	tree := NewBPlusTree(4, ku, s, c)
	put(t, tree, seq(0, 40, 1)...)
	n := 0
	s.onPut = func() error {
		n++
		if n == 3 {
			return errors.New("full")
		}
		return nil
	}
	if _, _, _, err := tree.Flush(false); err == nil {
		t.Fatal("no error")
	}
	s.onPut = nil
	c.UpdateLimits(0, 0)
	time.Sleep(100 * time.Millisecond)
	content(t, tree, seq(0, 40, 1))
}''',needs='a failing PutNode with a shared cache that then evicts',breaks='a node whose write failed is on the clean list: eviction of it panics'),
dict(id='bt-format-swap',property='C11',edits=[('btree.go','''	ObjectNumber uint64
	ObjectOffset uint64
	ObjectLength uint64
	Items        uint64
''','''	ObjectNumber uint64
	ObjectLength uint64
	ObjectOffset uint64
	Items        uint64
''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 5, 1)...)
	n, o, l, err := tree.Flush(false)
	must(t, err)
	b := s.objs[[3]uint64{n, o, l}]
	// items, root, leaf, capacity, children, first child's reference
	u := func(i int) uint64 { return binary.LittleEndian.Uint64(b[i:]) }
	k := [3]uint64{u(26), u(34), u(42)}
	if _, ok := s.objs[k]; !ok {
		t.Fatalf("no child at %v", k)
	}
}''',needs='reading images with anything but this build',breaks='on-disk format'),
dict(id='bt-put-dup-dirty',property='C12',edits=[('btree.go','''			if keyAlreadyPresent {
				ok = false
			} else {''','''			if keyAlreadyPresent {
				if nil != tree.nodeCache {
					tree.touchLoadedNodeToRoot(node) // keep it among the most recently used
				}
				ok = false
			} else {''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, NewBPlusTreeCache(100, 100))
	put(t, tree, seq(0, 40, 1)...)
	tree.Flush(false)
	n := s.puts
	if ok, err := tree.Put(uint32(3), uint32(3)); ok || err != nil {
		t.Fatal(ok, err)
	}
	tree.Flush(false)
	if s.puts != n {
		t.Fatalf("%d nodes written for a refused Put", s.puts-n)
	}
}''',needs='Put of an existing key with a cache',breaks='rejected operations cause writes'),
dict(id='bt-drainer-norecheck',property='C16',edits=[('btree.go','''		if cleanLRU != nodeToEvict.btreeNodeCacheTag {''','''		if !nodeToEvict.loaded {''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	c := NewBPlusTreeCache(1000, 1000)
	tree := NewBPlusTree(4, ku, s, c)
	put(t, tree, seq(0, 40, 1)...)
	tree.Flush(false)
	// the drainer has picked a node when it finds the tree locked
	b := tree.(*btreeTreeStruct)
	b.Lock()
	c.UpdateLimits(0, 0)
	time.Sleep(200 * time.Millisecond)
	b.touchNode(b.root)
	b.Unlock()
	time.Sleep(200 * time.Millisecond)
	content(t, tree, seq(0, 40, 1))
}''',needs='a node modified between its selection by the eviction goroutine and the eviction',breaks='eviction panics on a modified node'),
dict(id='bt-drainer-lockorder',property='C16',edits=[('btree.go','''		treeBeingEvictedFrom = nodeToEvict.tree
		bPlusTreeCache.Unlock()
		treeBeingEvictedFrom.Lock()
''','''		treeBeingEvictedFrom = nodeToEvict.tree
		treeBeingEvictedFrom.Lock() // prevent nodeToEvict's tree from going away
		bPlusTreeCache.Unlock()
''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	c := NewBPlusTreeCache(0, 0)
	tree := NewBPlusTree(4, ku, s, c)
	put(t, tree, seq(0, 100, 1)...)
	within(t, 20*time.Second, "churn", func() {
		for i := 0; i < 300; i++ {
			tree.Flush(false)
			for j := 0; j < 100; j++ {
				tree.GetByKey(uint32(j))
			}
			tree.Touch()
		}
	})
}''',needs='an operation inside the tree while the eviction goroutine selects a node of it',breaks='deadlock by lock order inversion'),
dict(id='bt-drainer-stuck',property='C17',edits=[('btree.go','''		if (0 == bPlusTreeCache.cleanLRUItems) || (bPlusTreeCache.evictLowLimit >= (bPlusTreeCache.cleanLRUItems + bPlusTreeCache.dirtyLRUItems)) {
			bPlusTreeCache.drainerActive = false
''','''		if (0 == bPlusTreeCache.cleanLRUItems) || (bPlusTreeCache.evictLowLimit >= (bPlusTreeCache.cleanLRUItems + bPlusTreeCache.dirtyLRUItems)) {
			bPlusTreeCache.drainerActive = (0 == bPlusTreeCache.cleanLRUItems)
''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	c := NewBPlusTreeCache(2, 4)
	tree := NewBPlusTree(4, ku, s, c)
	put(t, tree, seq(0, 100, 1)...)
	for i := 0; i < 3; i++ {
		tree.Flush(false)
		time.Sleep(100 * time.Millisecond)
		if st := c.Stats(); st.CleanLRUItems+st.DirtyLRUItems > 4 {
			t.Fatalf("%+v", *st)
		}
		tree.Touch()
		time.Sleep(100 * time.Millisecond)
	}
}''',needs='eviction that ends because no unmodified node is left',breaks='eviction never starts again'),
dict(id='bt-lru-middle',property='C17',edits=[('btree.go','''				} else {
					node.prevBTreeNode.nextBTreeNode = node.nextBTreeNode
					node.nextBTreeNode.prevBTreeNode = node.prevBTreeNode

					node.nextBTreeNode = nil
					node.prevBTreeNode = tree.nodeCache.cleanLRUTail

					tree.nodeCache.cleanLRUTail.nextBTreeNode = node
					tree.nodeCache.cleanLRUTail = node
				}
''','''				} else if node.nextBTreeNode != tree.nodeCache.cleanLRUTail { // already as good as most recently used
					node.prevBTreeNode.nextBTreeNode = node.nextBTreeNode
					node.nextBTreeNode.prevBTreeNode = node.prevBTreeNode

					node.nextBTreeNode = nil
					node.prevBTreeNode = tree.nodeCache.cleanLRUTail

					tree.nodeCache.cleanLRUTail.nextBTreeNode = node
					tree.nodeCache.cleanLRUTail = node
				}
''',0)],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	c := NewBPlusTreeCache(100, 100)
	tree := NewBPlusTree(4, ku, s, c)
	put(t, tree, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	tree.Flush(true)
	get := func(k int) int {
		g := s.gets
		tree.GetByKey(uint32(k))
		return s.gets - g
	}
	get(0) // root, leaf A
	get(3) // leaf B
	get(5) // leaf C
	get(3) // B is between A and C: now the most recent
	get(3)
	get(5)
	get(3)
	// recency: A, C, root, B
	c.UpdateLimits(2, 2)
	time.Sleep(200 * time.Millisecond)
	if get(3) != 0 {
		t.Fatal("the most recently used leaf was evicted")
	}
}''',needs='a particular order of visits',breaks='least recently used order'),
dict(id='bt-layout-offset0',property='C07',edits=[('btree.go','''	if 0 != node.objectNumber {
		prevObjectBytes''','''	if 0 != node.objectOffset {
		prevObjectBytes''')],demo='''
func TestDemo(t *testing.T) {
	for seed := uint32(1); seed < 5; seed++ {
		churn(t, seed, 60, 5, seed%2 == 0, nil, nil)
	}
}''',needs='a node at offset zero of its object',breaks='layout report'),
dict(id='bt-flush-loc-unlocked',property='C15',edits=[('btree.go','''	tree.Lock()
	defer tree.Unlock()

	// First flush (and optionally purge) B+Tree

	err = tree.flushNode(tree.root, andPurge) // will also mark node clean/used or evicted in LRU
	if nil != err {
		return
	}

	rootObjectNumber = tree.root.objectNumber
	rootObjectOffset = tree.root.objectOffset
	rootObjectLength = tree.root.objectLength
''','''	tree.Lock()

	// First flush (and optionally purge) B+Tree

	err = tree.flushNode(tree.root, andPurge) // will also mark node clean/used or evicted in LRU

	tree.Unlock()

	if nil != err {
		return
	}

	rootObjectNumber, rootObjectOffset, rootObjectLength = tree.FetchLocation()
''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	stop := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					tree.PatchByIndex(g, uint32(1))
				}
			}
		}()
	}
	zero := 0
	for i := 0; i < 20000; i++ {
		n, o, l, err := tree.Flush(false)
		if err != nil || n == 0 && o == 0 && l == 0 {
			zero++
		}
	}
	close(stop)
	wg.Wait()
	if zero != 0 {
		t.Fatalf("%d flushes returned no location", zero)
	}
}''',needs='a modification between the end of the flush and the reading of the location',breaks='Flush returns a location that is not of its flush'),
dict(id='bt-patchidx-checkthenact',property='C15',edits=[('btree.go','''	tree.Lock()
	defer tree.Unlock()

	node := tree.root

	if (0 > index) || (uint64(index) >= node.items) {
		ok = false
		err = nil
		return
	}

	netIndex := uint64(index)

	for {
		if node.loaded {
			tree.incCacheHits()
			tree.markNodeUsed(node)
		} else {
			tree.incCacheMisses()
			err = tree.loadNode(node) // will also mark node clean/used in LRU
			if nil != err {
				return
			}
		}

		if node.leaf {
			tree.touch''','''	tree.Lock()

	if (0 > index) || (uint64(index) >= tree.root.items) {
		tree.Unlock()
		ok = false
		err = nil
		return
	}

	tree.Unlock()

	netIndex := uint64(index)

	tree.Lock()
	defer tree.Unlock()

	node := tree.root

	for {
		if node.loaded {
			tree.incCacheHits()
			tree.markNodeUsed(node)
		} else {
			tree.incCacheMisses()
			err = tree.loadNode(node) // will also mark node clean/used in LRU
			if nil != err {
				return
			}
		}

		if node.leaf {
			tree.touch''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	for r := 0; r < 50; r++ {
		tree := NewBPlusTree(4, ku, s, nil)
		put(t, tree, seq(0, 1000, 1)...)
		done := make(chan any)
		patched := 0
		go func() {
			defer func() { done <- recover() }()
			for {
				n, _ := tree.Len()
				if n == 0 {
					return
				}
				if ok, _ := tree.PatchByIndex(n-1, uint32(5)); ok {
					patched++
				}
			}
		}()
		for i := 999; i >= 0; i-- {
			tree.DeleteByIndex(i)
		}
		if p := <-done; p != nil {
			t.Fatal(p)
		}
	}
}''',needs='a deletion between the range check and the patch',breaks='PatchByIndex panics'),
dict(id='llrb-len-unlocked',property='C14',race=True,edits=[('llrb_tree.go','''func (tree *llrbTreeStruct) Len() (numberOfItems int, err error) {
	tree.Lock()
	defer tree.Unlock()
''','''func (tree *llrbTreeStruct) Len() (numberOfItems int, err error) {
''')],demo='''
func TestDemo(t *testing.T) {
	tree := NewLLRBTree(ku, nil)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			tree.Put(uint32(i), nil)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			tree.Len()
		}
	}()
	wg.Wait()
}''',needs='a concurrent modification',breaks='data race in Len (nil root after the check panics)'),
dict(id='bt-load-trailing',property='C09',edits=[('btree.go','''	if 0 != len(payload) {
		err = fmt.Errorf("Logic error: load() should have exhausted payload")
		return
	}
''','''	if (0 != len(payload)) && !node.root {
		err = fmt.Errorf("Logic error: load() should have exhausted payload")
		return
	}
''')],demo='''
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 3, 1)...)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	// one pair fewer than there is
	s.onGet = func(k [3]uint64, b []byte) ([]byte, error) {
		b[18] = 2
		return b, nil
	}
	if _, err := OldBPlusTree(n, o, l, ku, s, nil); err == nil {
		t.Fatal("accepted")
	}
}''',needs='a root image with a lowered count',breaks='a damaged root is accepted'),
]
