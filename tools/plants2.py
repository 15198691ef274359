# further planted bugs; edits shared with tools/trials
_g={}
for _f in ('t1','t2','t3'):
    _h={}; exec(open('/verif/tools/trials/%s.py'%_f).read(),_h)
    for _t in _h['TR']: _g[_t[0]]=_t[2]
BT='btree.go'; L='llrb_tree.go'; CM='common_api.go'; DMP='btree_dump.go'
PLANTS=[]
def P(id,prop,edits,demo,needs,breaks,race=False):
    PLANTS.append(dict(id=id,property=prop,edits=_g[edits] if isinstance(edits,str) else edits,demo=demo,needs=needs,breaks=breaks,race=race))
T3="""	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, %s)
	put(t, tree, seq(0, 60, 1)...)
"""
P('llrb-lastget','C01','llrb-lastget',"""
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		tree := NewLLRBTree(ku, nil)
		put(t, tree, seq(0, 20, 1)...)
		tree.GetByKey(uint32(i))
		ok, err := tree.DeleteByIndex(i)
		if err != nil || !ok {
			t.Fatal(ok, err)
		}
		if v, ok, err := tree.GetByKey(uint32(i)); ok || err != nil {
			t.Fatalf("deleted key %d is still found: %v %v", i, v, err)
		}
	}
}""",'a lookup, then deletion of that item by index, then the lookup again','GetByKey answers from a remembered node that DeleteByIndex does not forget')
P('bt-leaf-finger','C02','bt-leaf-finger',"""
func TestDemo(t *testing.T) {
	tree := NewBPlusTree(4, ku, nil, nil)
	put(t, tree, seq(0, 40, 1)...)
	for a := 0; a < 40; a++ {
		for b := 0; b < 40; b++ {
			tree := NewBPlusTree(4, ku, nil, nil)
			put(t, tree, seq(0, 40, 1)...)
			tree.GetByKey(uint32(a))
			for i := 0; i < 12; i++ {
				tree.DeleteByIndex(a/2 + i%3)
			}
			n, _ := tree.Len()
			in := map[uint32]bool{}
			for i := 0; i < n; i++ {
				k, _, _, _ := tree.GetByIndex(i)
				in[k.(uint32)] = true
			}
			if _, ok, err := tree.GetByKey(uint32(b)); ok != in[uint32(b)] || err != nil {
				t.Fatalf("GetByKey(%d) = %v, %v", b, ok, err)
			}
		}
	}
}""",'a lookup in a leaf that a merge then empties into its neighbour, followed by deletion and lookup of one of its keys','lookups consult the leaf of the previous lookup even after it has left the tree')
P('bt-nil-value','C02','nilval',"""
func TestDemo(t *testing.T) {
	tree := NewBPlusTree(4, ku, nil, nil)
	if ok, err := tree.Put(uint32(1), nil); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if v, ok, err := tree.GetByKey(uint32(1)); !ok || v != nil || err != nil {
		t.Fatal(v, ok, err)
	}
}""",'an item whose value is nil','GetByKey takes a nil value for absence')
P('bt-height-cache','C03',[
 (BT,"	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n","	nodeCache                 *btreeNodeCacheStruct                   // likely shared with other btreeTreeStruct's\n	height                    uint64                                  // as last counted\n"),
 (BT,"	for {\n		if node.loaded {\n			tree.incCacheHits()\n			tree.markNodeUsed(node)\n		} else {\n			tree.incCacheMisses()\n			err = tree.loadNode(node) // will also mark node clean/used in LRU\n			if nil != err {\n				return\n			}\n		}\n\n		if node.root {\n			dimensionsReport = DimensionsReport{","	if (0 != tree.height) && node.loaded {\n		dimensionsReport = DimensionsReport{MinKeysPerNode: tree.minKeysPerNode, MaxKeysPerNode: tree.maxKeysPerNode, Items: node.items, Height: tree.height}\n		return\n	}\n\n	for {\n		if node.loaded {\n			tree.incCacheHits()\n			tree.markNodeUsed(node)\n		} else {\n			tree.incCacheMisses()\n			err = tree.loadNode(node) // will also mark node clean/used in LRU\n			if nil != err {\n				return\n			}\n		}\n\n		if node.root {\n			dimensionsReport = DimensionsReport{"),
 (BT,"		if node.leaf {\n			err = nil\n			return\n		}\n\n		node = node.nonLeafLeftChild\n","		if node.leaf {\n			tree.height = dimensionsReport.Height\n			err = nil\n			return\n		}\n\n		node = node.nonLeafLeftChild\n"),
 (BT,"		insertNode.root = false\n","		insertNode.root = false\n		tree.height = 0\n"),
 ],"""
func TestDemo(t *testing.T) {
	tree := NewBPlusTree(4, ku, nil, nil)
	put(t, tree, seq(0, 40, 1)...)
	d, err := tree.FetchDimensionsReport()
	must(t, err)
	h := d.Height
	for i := 0; i < 38; i++ {
		tree.DeleteByIndex(i % 2)
	}
	d, err = tree.FetchDimensionsReport()
	must(t, err)
	if h < 3 || d.Height != 1 {
		t.Fatalf("height %d, then %d with two items", h, d.Height)
	}
}""",'a dimensions report, then deletions that lower the tree, then another report','the height remembered from an earlier report outlives a root shrink')
P('bt-pack-append','C04','pack-appendkey',"""
type tableStore struct {
	*memStore
	table []byte
}

func (s *tableStore) PackKey(key Key) ([]byte, error) {
	i := key.(uint32) * 4
	return s.table[i : i+4], nil
}

func TestDemo(t *testing.T) {
	s := &tableStore{newMemStore(), nil}
	for i := 0; i < 64; i++ {
		s.table = append(s.table, byte(i), 0, 0, 0)
	}
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	n, o, l, err := tree.Flush(false)
	must(t, err)
	again, err := OldBPlusTree(n, o, l, ku, s, nil)
	must(t, err)
	content(t, again, seq(0, 40, 1))
}""",'a client whose packed key is a slice with spare capacity that belongs to other data','the packed value is appended to the client\'s key buffer and overwrites what follows it')
P('bt-patch-rootdirty','C05',[(BT,"			tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU\n			_, err = node.kvLLRB.PatchByIndex(","			if node.root || !node.parentNode.dirty { // otherwise it is going to be written anyway\n				tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU\n			}\n			_, err = node.kvLLRB.PatchByIndex(")],"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	for i := 0; i < 40; i++ {
		ok, err := tree.PatchByIndex(i, uint32(7000+i))
		if !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	_, _, _, err = tree.Flush(true)
	must(t, err)
	for i := 0; i < 40; i++ {
		if _, v, _, err := tree.GetByIndex(i); v != uint32(7000+i) || err != nil {
			t.Fatalf("item %d: %v, %v", i, v, err)
		}
	}
}""",'a flush, then two patches in neighbouring leaves, then the second leaf leaving memory','the second patched leaf is never marked modified')
P('bt-purge-prunes','C06','purge-prunes',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	n, o, l, err := tree.Flush(false)
	must(t, err)
	ok, err := tree.PatchByIndex(3, uint32(1))
	if !ok || err != nil {
		t.Fatal(ok, err)
	}
	must(t, tree.Purge(false))
	again, err := OldBPlusTree(n, o, l, ku, s, nil)
	must(t, err)
	content(t, again, seq(0, 40, 1))
}""",'a purge between a modification and the next flush, then a crash','Purge(false) discards nodes the last completed flush still refers to')
P('bt-prune-batch','C07','prune-64',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 200, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	must(t, tree.Touch())
	_, _, _, err = tree.Flush(false)
	must(t, err)
	must(t, tree.Prune())
	total, want := uint64(0), uint64(0)
	rep, err := tree.FetchLayoutReport()
	must(t, err)
	for _, b := range rep {
		total += b
	}
	for k := range s.objs {
		want += k[2]
	}
	if total != want {
		t.Fatalf("%d bytes reachable, %d allocated", total, want)
	}
}""",'a prune with more than eight superseded nodes pending','Prune discards the first eight and forgets the rest')
P('bt-purge-forgets-stale','C07','purgefull-dropstale',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	ok, err := tree.PatchByIndex(3, uint32(1))
	if !ok || err != nil {
		t.Fatal(ok, err)
	}
	_, _, _, err = tree.Flush(false)
	must(t, err)
	must(t, tree.Purge(true))
	must(t, tree.Prune())
	must(t, tree.Discard())
	if len(s.objs) != 0 {
		t.Fatalf("%d nodes left after Discard", len(s.objs))
	}
}""",'Purge(true) between a flush and the prune that follows it','locations awaiting Prune are forgotten')
P('bt-pack-nonleaf-err','C08','pack-nonleaf-err',"""
func TestDemo(t *testing.T) {
	for at := 1; at < 200; at++ {
		s := newMemStore()
		tree := NewBPlusTree(4, ku, s, nil)
		put(t, tree, seq(0, 40, 1)...)
		n := 0
		s.onPack = func() error {
			n++
			if n == at {
				return fmt.Errorf("pack")
			}
			return nil
		}
		_, _, _, err := tree.Flush(false)
		if n >= at && err == nil {
			t.Fatalf("Flush succeeded though packing call %d failed", at)
		}
	}
}""",'PackKey failing for a separator key of an inner node','Flush ignores the failure and writes a broken node')
P('bt-trailing-zeros','C09','trail-zero',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 3, 1)...)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	s.onGet = func(k [3]uint64, b []byte) ([]byte, error) { return append(b, 0, 0, 0, 0), nil }
	_, err = OldBPlusTree(n, o, l, ku, s, nil)
	if err == nil {
		t.Fatal("image with trailing bytes accepted")
	}
}""",'a node image followed by zero bytes','trailing zero bytes are taken for padding')
P('bt-val-overfull','C09','val-maxnonleaf',"""
func TestDemo(t *testing.T) {
	// trees of capacity six whose root is made to state a capacity of four
	seen := 0
	for items := 10; items < 40; items++ {
		s := newMemStore()
		tree := NewBPlusTree(6, ku, s, nil)
		put(t, tree, seq(0, items, 1)...)
		n, o, l, err := tree.Flush(true)
		must(t, err)
		children := uint64(0)
		s.onGet = func(k [3]uint64, b []byte) ([]byte, error) {
			if k == [3]uint64{n, o, l} {
				for i := 8; i+16 <= len(b); i++ {
					if binary.LittleEndian.Uint64(b[i:]) == 6 {
						binary.LittleEndian.PutUint64(b[i:], 4)
						children = binary.LittleEndian.Uint64(b[i+8:])
						break
					}
				}
			}
			return b, nil
		}
		again, err := OldBPlusTree(n, o, l, ku, s, nil)
		must(t, err)
		d, err := again.FetchDimensionsReport()
		must(t, err)
		if d.MaxKeysPerNode != 4 || d.Height != 2 || children != 6 {
			continue
		}
		seen++
		if err := again.Validate(); err == nil {
			t.Fatalf("Validate accepts a root with five keys where four are allowed (%d items)", items)
		}
	}
	if seen == 0 {
		t.Log("nothing to look at")
	}
}""",'an inner node holding exactly one key too many','Validate allows one child too many')
P('cmp-string-trim','C10','str-trim',"""
func TestDemo(t *testing.T) {
	for _, p := range [][2]string{{"a", "a\\x00"}, {"", "\\x00"}, {"b\\x00", "b\\x00\\x00"}} {
		if r, err := CompareString(p[0], p[1]); r >= 0 || err != nil {
			t.Fatalf("CompareString(%q, %q) = %d, %v", p[0], p[1], r, err)
		}
	}
}""",'strings that differ only in trailing zero bytes','they compare equal')
P('cmp-time-zone','C10','time-equalzone',"""
func TestDemo(t *testing.T) {
	a := time.Unix(1000, 5)
	b := a.In(time.FixedZone("x", 3600))
	if r, err := CompareTime(a, b); r != 0 || err != nil {
		t.Fatal(r, err)
	}
	if r, err := CompareTime(b, a); r != 0 || err != nil {
		t.Fatal(r, err)
	}
}""",'the same instant in two time zones','they compare unequal in both directions')
P('bt-capacity32','C11','root-cap16',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(1<<32+6, ku, s, nil)
	put(t, tree, 1, 2, 3)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	again, err := OldBPlusTree(n, o, l, ku, s, nil)
	must(t, err)
	d, err := again.FetchDimensionsReport()
	must(t, err)
	if d.MaxKeysPerNode != 1<<32+6 {
		t.Fatalf("capacity %d", d.MaxKeysPerNode)
	}
}""",'a capacity that needs more than 32 bits','the stored capacity is truncated')
P('bt-borrow-inspect-dirty','C12','borrow-inspect-dirty',"""
func TestDemo(t *testing.T) {
	// leaves of 2, 2 and 3 items; deleting from the middle one borrows from the right
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 9, 1)...)
	del(t, tree, 0)
	for r := 0; r < 40; r++ {
		n, o, l, err := tree.Flush(false)
		must(t, err)
		for i := 0; ; i++ {
			x, err := OldBPlusTree(n, o, l, ku, s, nil)
			must(t, err)
			ok, err := x.DeleteByIndex(i)
			must(t, err)
			if !ok {
				break
			}
			p := s.puts
			xn, xo, xl, err := x.Flush(false)
			must(t, err)
			_, _, _ = xn, xo, xl
			if d := s.puts - p; d > 3 {
				t.Fatalf("deleting item %d in a tree of height two wrote %d nodes", i, d)
			}
		}
		k := r*7%100 + 9
		tree.Put(uint32(k), uint32(0))
		if r%2 == 0 {
			tree.DeleteByIndex(r % 5)
		}
		if d, _ := tree.FetchDimensionsReport(); d.Height > 2 {
			break
		}
	}
}""",'a deletion that inspects its left neighbour but borrows from the right one','the neighbour that was only looked at is rewritten by the next flush')
P('llrb-bisect-rejected','C13','bis-cmperr',"""
func TestDemo(t *testing.T) {
	bad := uint32(0)
	cmp := func(a, b Key) (int, error) {
		if a.(uint32) == 55 && b.(uint32) > 60 || b.(uint32) == 55 && a.(uint32) > 60 {
			bad++
			return 0, fmt.Errorf("cannot be ordered")
		}
		return CompareUint32(a, b)
	}
	tree := NewLLRBTree(cmp, nil)
	put(t, tree, seq(0, 100, 10)...)
	for _, f := range []func(Key) (int, bool, error){tree.BisectLeft, tree.BisectRight} {
		bad = 0
		if i, ok, err := f(uint32(55)); err == nil && bad > 0 {
			t.Fatalf("bisection for a rejected key answered %d, %v", i, ok)
		}
	}
}""",'BisectRight with a key rejected below the root','the rejection is swallowed and a position returned')
P('bt-touchitem-twophase','C15','touchitem-twophase',"""
func TestDemo(t *testing.T) {
	// the client's comparator is slow for one key, so that calls queue up for the tree
	within(t, 150*time.Second, "TouchItem", func() {
		for r := 0; r < 300; r++ {
			slow := func(a, b Key) (int, error) {
				if a.(uint32) == 500 {
					time.Sleep(3 * time.Millisecond)
				}
				return CompareUint32(a, b)
			}
			tree := NewBPlusTree(4, slow, newMemStore(), nil)
			put(t, tree, 0, 1, 2, 3)
			var wg sync.WaitGroup
			wg.Add(3)
			go func() {
				defer wg.Done()
				for i := 0; i < 3; i++ {
					tree.GetByKey(uint32(500))
				}
			}()
			time.Sleep(500 * time.Microsecond)
			var nx uint64
			go func() { defer wg.Done(); nx, _ = tree.TouchItem(2) }()
			time.Sleep(500 * time.Microsecond)
			go func() { defer wg.Done(); tree.Put(uint32(4), uint32(4)) }()
			wg.Wait()
			if nx <= 2 || nx > 5 {
				t.Fatalf("TouchItem(2) of four or five items answered %d", nx)
			}
		}
	})
}""",'another goroutine splitting the root between the two halves of TouchItem','TouchItem reads the root in one critical section and walks from it in another')
P('bt-drainer-loadedonly','C16','dr-loadedonly',"""
func TestDemo(t *testing.T) {
	within(t, 100*time.Second, "the drainer", func() {
		for r := 0; r < 400; r++ {
			s := newMemStore()
			c := NewBPlusTreeCache(0, 1)
			tree := NewBPlusTree(4, ku, s, c)
			for i := 0; i < 60; i++ {
				tree.Put(uint32(i), uint32(i))
			}
			var wg sync.WaitGroup
			for g := 0; g < 2; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 30; i++ {
						tree.Flush(false)
						tree.PatchByIndex((i*7)%60, uint32(i))
					}
				}()
			}
			wg.Wait()
		}
	})
}""",'a client modifying the node eviction has just chosen, before eviction gets the tree lock','eviction of a modified node panics')
P('bt-lru-not-moved','C17','used-middle',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	build := NewBPlusTree(4, ku, s, nil)
	put(t, build, seq(0, 9, 1)...)
	n, o, l, err := build.Flush(false)
	must(t, err)
	c := NewBPlusTreeCache(3, 100)
	tree, err := OldBPlusTree(n, o, l, ku, s, c)
	must(t, err)
	d, err := tree.FetchDimensionsReport()
	must(t, err)
	if d.Height != 2 {
		t.Fatal(d)
	}
	last := uint32(8)
	for _, k := range []uint32{0, 4, last, 4, 0} { // least recently used: the last leaf
		tree.GetByKey(k)
	}
	c.UpdateLimits(3, 3)
	time.Sleep(300 * time.Millisecond)
	g := s.gets
	tree.GetByKey(uint32(4))
	tree.GetByKey(uint32(0))
	if s.gets != g {
		t.Fatal("a recently used leaf was evicted before the least recently used one")
	}
}""",'a node used again while in the middle of the recency list, then eviction','the use of a node that is neither first nor last is not recorded')
P('bt-limits-low-ignored','C17','upd-onlyshrink',"""
func TestDemo(t *testing.T) {
	c := NewBPlusTreeCache(2, 10)
	c.UpdateLimits(5, 10)
	if s := c.Stats(); s.EvictLowLimit != 5 || s.EvictHighLimit != 10 {
		t.Fatal(*s)
	}
}""",'a change of the low limit alone','it is ignored')
P('bt-get-readahead','C18','get-readahead',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	build := NewBPlusTree(4, ku, s, nil)
	put(t, build, seq(0, 100, 2)...)
	n, o, l, err := build.Flush(false)
	must(t, err)
	d, err := build.FetchDimensionsReport()
	must(t, err)
	for k := 1; k < 100; k += 2 {
		g := s.gets
		tree, err := OldBPlusTree(n, o, l, ku, s, nil)
		must(t, err)
		_, ok, err := tree.GetByKey(uint32(k))
		if ok || err != nil {
			t.Fatal(ok, err)
		}
		if s.gets-g > int(d.Height) {
			t.Fatalf("looking up one key in a tree of height %d fetched %d nodes", d.Height, s.gets-g)
		}
	}
}""",'looking up an absent key in a leaf that is not its parent\'s first','the first sibling is fetched as well')
P('bt-purge-skip-dirtyroot','C18','bt-purge-skip-dirtyroot',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	ok, err := tree.PatchByIndex(0, uint32(5))
	if !ok || err != nil {
		t.Fatal(ok, err)
	}
	must(t, tree.Purge(false))
	g := s.gets
	tree.GetByIndex(39)
	if s.gets == g {
		t.Fatal("an unmodified leaf stayed resident across Purge(false)")
	}
}""",'Purge(false) while something in the tree is modified','the unmodified nodes are not released')
P('bt-dump-64','C19','bt-dump-skiplast',"""
type countStore struct {
	*memStore
	n int
}

func (s *countStore) DumpValue(value Value) (string, error) { s.n++; return "v", nil }

func TestDemo(t *testing.T) {
	s := &countStore{newMemStore(), 0}
	tree := NewBPlusTree(200, ku, s, nil)
	put(t, tree, seq(0, 150, 1)...)
	must(t, tree.Dump())
	if s.n != 150 {
		t.Fatalf("%d of 150 items dumped", s.n)
	}
}""",'a leaf with more than 64 items','Dump shows the first 64')
P('llrb-dump-deep','C19','llrbdump-left',"""
type countDump struct{ n map[string]int }

func (c *countDump) DumpKey(key Key) (string, error) {
	s := fmt.Sprint(key)
	c.n[s]++
	return s, nil
}
func (c *countDump) DumpValue(value Value) (string, error) { return "", nil }

func TestDemo(t *testing.T) {
	c := &countDump{map[string]int{}}
	tree := NewLLRBTree(ku, c)
	put(t, tree, seq(0, 3000, 1)...)
	must(t, tree.Dump())
	// once for itself in the list, once as its parent's child, once in the drawing
	few := 0
	for _, n := range c.n {
		if n < 3 {
			few++
		}
	}
	if few > 1 {
		t.Fatalf("%d of %d keys are missing somewhere", few-1, len(c.n))
	}
}""",'an LLRB tree more than eight levels deep','the left subtrees below a certain depth are not drawn')
P('bt-dump-nil','C19','dump-valnil',"""
type nilStore struct {
	*memStore
	n int
}

func (s *nilStore) DumpValue(value Value) (string, error) { s.n++; return fmt.Sprint(value), nil }

func TestDemo(t *testing.T) {
	s := &nilStore{newMemStore(), 0}
	tree := NewBPlusTree(4, ku, s, nil)
	for i := 0; i < 10; i++ {
		if ok, err := tree.Put(uint32(i), nil); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	must(t, tree.Dump())
	if s.n != 10 {
		t.Fatalf("%d of 10 values dumped", s.n)
	}
}""",'items whose value is nil','Dump leaves them out')
P('llrb-delidx-unlocked','C14',[(L,"func (tree *llrbTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n	tree.Lock()\n	defer tree.Unlock()\n\n	if (index < 0) || (nil == tree.root) || (index >= tree.root.len) {\n		ok = false\n		err = nil\n\n		return\n	}\n","func (tree *llrbTreeStruct) DeleteByIndex(index int) (ok bool, err error) {\n	tree.Lock()\n	if (index < 0) || (nil == tree.root) || (index >= tree.root.len) {\n		tree.Unlock()\n		ok = false\n		err = nil\n\n		return\n	}\n	tree.Unlock()\n\n	tree.Lock()\n	defer tree.Unlock()\n")],"""
func TestDemo(t *testing.T) {
	within(t, 150*time.Second, "DeleteByIndex", func() {
		for r := 0; r < 300; r++ {
			slow := func(a, b Key) (int, error) {
				if a.(uint32) == 500 {
					time.Sleep(3 * time.Millisecond)
				}
				return CompareUint32(a, b)
			}
			tree := NewLLRBTree(slow, nil)
			tree.Put(uint32(1), uint32(1))
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 3; i++ {
					tree.GetByKey(uint32(500))
				}
			}()
			time.Sleep(500 * time.Microsecond)
			n := make([]bool, 3)
			p := make([]any, 3)
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() { p[g] = recover() }()
					n[g], _ = tree.DeleteByIndex(0)
				}(g)
			}
			wg.Wait()
			c := 0
			for g := range n {
				if p[g] != nil {
					t.Fatal(p[g])
				}
				if n[g] {
					c++
				}
			}
			if c != 1 {
				t.Fatalf("the single item was deleted %d times", c)
			}
		}
	})
}""",'another goroutine deleting the last item between the range check and the deletion','DeleteByIndex checks the range in one critical section and deletes in another')
