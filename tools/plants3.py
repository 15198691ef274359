# planted bugs whose edits are shared with tools/trials (third set)
_g={}
for _f in ('t4','t5','t6','t7'):
    _h={}; exec(open('/verif/tools/trials/%s.py'%_f).read(),_h)
    for _t in _h['TR']: _g[_t[0]]=[e for e in _t[2]]
BT='btree.go'; L='llrb_tree.go'; CM='common_api.go'; DMP='btree_dump.go'
PLANTS=[]
def P(id,prop,edits,demo,needs,breaks,race=False):
    PLANTS.append(dict(id=id,property=prop,edits=_g[edits] if isinstance(edits,str) else edits,demo=demo,needs=needs,breaks=breaks,race=race))
P('llrb-put-dup-rekey','C01','l-put-dup-rekey',"""
type tagged struct{ k, tag int }

func TestDemo(t *testing.T) {
	tree := NewLLRBTree(func(a, b Key) (int, error) { return a.(*tagged).k - b.(*tagged).k, nil }, nil)
	first := &tagged{5, 1}
	if ok, err := tree.Put(first, 0); !ok || err != nil {
		t.Fatal(ok, err)
	}
	if ok, err := tree.Put(&tagged{5, 2}, 1); ok || err != nil {
		t.Fatal(ok, err)
	}
	k, v, ok, err := tree.GetByIndex(0)
	if k != Key(first) || v != 0 || !ok || err != nil {
		t.Fatal(k, v, ok, err)
	}
}""",'putting a key that is there already, by an equal but distinguishable key','the rejected Put replaces the key of the item')
P('bt-touch-skip-dirty','C12','touch-skip-dirty',"""
func TestDemo(t *testing.T) {
	for n := 5; n < 80; n++ {
		s := newMemStore()
		tree := NewBPlusTree(4, ku, s, nil)
		put(t, tree, seq(0, n, 1)...)
		_, _, _, err := tree.Flush(false)
		must(t, err)
		all := s.puts
		_, err = tree.PatchByKey(uint32(0), uint32(7))
		must(t, err)
		must(t, tree.Touch())
		s.puts = 0
		_, _, _, err = tree.Flush(false)
		must(t, err)
		if s.puts != all {
			t.Fatalf("Flush after Touch wrote %d of %d nodes", s.puts, all)
		}
	}
}""",'Touch of a tree whose first item was just modified','Touch takes a dirty first subtree to mean that everything is dirty')
P('bt-stats-live','C17','stats-live',"""
func TestDemo(t *testing.T) {
	c := NewBPlusTreeCache(100, 100)
	tree := NewBPlusTree(4, ku, newMemStore(), c)
	a := c.Stats()
	was := *a
	put(t, tree, seq(0, 30, 1)...)
	c.Stats()
	if *a != was {
		t.Fatalf("statistics taken before are %+v, were %+v", *a, was)
	}
}""",'keeping a Stats result while another is taken','Stats hands out one shared structure, so earlier results change')
P('bt-layout-cache','C07','layout-cache',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 30, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	rep, err := tree.FetchLayoutReport()
	must(t, err)
	want := map[uint64]uint64{}
	for k, v := range rep {
		want[k] = v
		rep[k] = 0 // ours to change
	}
	again, err := tree.FetchLayoutReport()
	must(t, err)
	for k, v := range want {
		if again[k] != v {
			t.Fatalf("object %d: %d, want %d", k, again[k], v)
		}
	}
}""",'a caller that changes the map it was given, then asks again with nothing modified','the layout report is remembered and handed out again')
WIDE="""
type wideStore struct {
	*memStore
	add [2]uint64
}

func (s *wideStore) GetNode(n, o, l uint64) ([]byte, error) {
	return s.memStore.GetNode(n-s.add[0], o-s.add[1], l)
}
func (s *wideStore) PutNode(b []byte) (uint64, uint64, error) {
	n, o, err := s.memStore.PutNode(b)
	return n + s.add[0], o + s.add[1], err
}
func (s *wideStore) DiscardNode(n, o, l uint64) error {
	return s.memStore.DiscardNode(n-s.add[0], o-s.add[1], l)
}

func TestDemo(t *testing.T) {
	s := &wideStore{newMemStore(), [2]uint64{%s, %s}}
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 30, 1)...)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	again, err := OldBPlusTree(n, o, l, ku, s, nil)
	must(t, err)
	content(t, again, seq(0, 30, 1))
	s.check(t)
}"""
P('bt-objnum32','C04','num32',WIDE%('1<<33','0'),'a store whose object numbers need more than 31 bits','object numbers of child references are narrowed to 32 bits')
P('bt-off40','C11','off40',WIDE%('0','1<<41'),'a store whose offsets need more than 40 bits','offsets are cut to 40 bits')
P('bt-cmp-minus1','C02','cmp-minus1-bt',"""
func TestDemo(t *testing.T) {
	tree := NewBPlusTree(4, func(a, b Key) (int, error) { return int(a.(uint32)) - int(b.(uint32)), nil }, nil, nil)
	put(t, tree, seq(0, 200, 7)...)
	content(t, tree, seq(0, 200, 7))
	for i := 0; i < 200; i++ {
		want := (i + 6) / 7
		if i%7 != 0 {
			want--
		}
		if x, found, err := tree.BisectLeft(uint32(i)); x != want || found != (i%7 == 0) || err != nil {
			t.Fatalf("BisectLeft(%d) = %d, %v, %v", i, x, found, err)
		}
	}
}""",'a comparator that returns differences rather than -1, 0 and 1','lookups test the comparison result for being -1')
P('bt-skip-busy','C17','e-skip-busy',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	slow := false
	cmp := func(a, b Key) (int, error) {
		if slow {
			time.Sleep(20 * time.Millisecond)
		}
		return CompareUint32(a, b)
	}
	tree := NewBPlusTree(4, cmp, s, nil)
	put(t, tree, seq(0, 60, 1)...)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	c := NewBPlusTreeCache(0, 1)
	again, err := OldBPlusTree(n, o, l, cmp, s, c)
	must(t, err)
	slow = true
	_, _, err = again.GetByKey(uint32(30))
	must(t, err)
	for i := 0; i < 100; i++ {
		time.Sleep(20 * time.Millisecond)
		if st := c.Stats(); st.CleanLRUItems+st.DirtyLRUItems <= 1 {
			return
		}
	}
	t.Fatalf("limits 0, 1, yet %+v", *c.Stats())
}""",'eviction starting while the tree is still in the operation that triggered it','eviction gives up on a busy tree, and nothing restarts it')
P('bt-prune-once','C07','prune-once',"""
type reuseStore struct {
	objs map[uint64][]byte
	bad  string
	*memStore
}

func (s *reuseStore) GetNode(n, o, l uint64) ([]byte, error) {
	if b, ok := s.objs[o]; ok {
		return append([]byte{}, b...), nil
	}
	return nil, fmt.Errorf("no node")
}
func (s *reuseStore) PutNode(b []byte) (uint64, uint64, error) {
	o := uint64(0)
	for ; s.objs[o] != nil; o++ {
	}
	s.objs[o] = append([]byte{}, b...)
	return 1, o, nil
}
func (s *reuseStore) DiscardNode(n, o, l uint64) error {
	if s.objs[o] == nil {
		s.bad = "double discard"
	}
	delete(s.objs, o)
	return nil
}

func TestDemo(t *testing.T) {
	s := &reuseStore{map[uint64][]byte{}, "", newMemStore()}
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, 1, 2, 3)
	for i := 0; i < 10; i++ {
		_, err := tree.PatchByKey(uint32(2), uint32(i))
		must(t, err)
		_, _, _, err = tree.Flush(false)
		must(t, err)
		must(t, tree.Prune())
		if len(s.objs) != 1 || s.bad != "" {
			t.Fatalf("round %d: %d nodes stored (%s)", i, len(s.objs), s.bad)
		}
	}
}""",'a store that hands out the location of a discarded node again','Prune remembers what it discarded and never discards the same location twice, even after it was written anew')
P('bt-min-reload','C03','old-min',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(8, ku, s, nil)
	put(t, tree, seq(0, 200, 1)...)
	for i := 0; i < 3; i++ {
		_, _, _, err := tree.Flush(true)
		must(t, err)
		d, err := tree.FetchDimensionsReport()
		must(t, err)
		if d.MinKeysPerNode != 4 || d.MaxKeysPerNode != 8 {
			t.Fatalf("%+v", d)
		}
	}
}""",'the root fetched again after it was released','the minimum occupancy shrinks each time the root is loaded')
P('bt-height-7','C03','dims-height-cache',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 20000, 1)...)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	s.gets = 0
	again, err := OldBPlusTree(n, o, l, ku, s, nil)
	must(t, err)
	_, _, err = again.GetByKey(uint32(10000))
	must(t, err)
	levels := uint64(s.gets)
	d, err := again.FetchDimensionsReport()
	must(t, err)
	if d.Height != levels {
		t.Fatalf("height %d, a lookup fetches %d nodes", d.Height, levels)
	}
}""",'a tree of more than seven levels','the reported height is capped')
P('llrb-eq-fast','C13','l-get-eq-fast',"""
func TestDemo(t *testing.T) {
	reject := false
	tree := NewLLRBTree(func(a, b Key) (int, error) {
		if reject {
			return 0, fmt.Errorf("cannot be compared")
		}
		return CompareUint32(a, b)
	}, nil)
	put(t, tree, seq(0, 20, 1)...)
	reject = true
	for i := 0; i < 20; i++ {
		if _, _, err := tree.GetByKey(uint32(i)); err == nil {
			t.Fatalf("GetByKey(%d) reports no error", i)
		}
	}
}""",'a lookup of the key at the root with a comparator that rejects it','identical keys are taken to be equal without consulting the comparator')
P('bt-index-uint32','C02','b-idx-uint32',"""
func TestDemo(t *testing.T) {
	tree := NewBPlusTree(4, ku, nil, nil)
	put(t, tree, seq(0, 20, 1)...)
	for _, i := range []int{-1 << 32, 1 << 32, 1<<32 + 3, -1 << 40} {
		if _, _, ok, err := tree.GetByIndex(i); ok || err != nil {
			t.Fatalf("GetByIndex(%d) = %v, %v", i, ok, err)
		}
		if ok, err := tree.PatchByIndex(i, uint32(1)); ok || err != nil {
			t.Fatalf("PatchByIndex(%d) = %v, %v", i, ok, err)
		}
		if ok, err := tree.DeleteByIndex(i); ok || err != nil {
			t.Fatalf("DeleteByIndex(%d) = %v, %v", i, ok, err)
		}
	}
}""",'an index beyond 32 bits','indices are cut to 32 bits')
P('bt-touchitem-uint32','C12','ti-uint32',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 20, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	puts := s.puts
	next, err := tree.TouchItem(1 << 32)
	must(t, err)
	_, _, _, err = tree.Flush(false)
	must(t, err)
	if next != 0 || s.puts != puts {
		t.Fatalf("TouchItem past the end returned %d and caused %d writes", next, s.puts-puts)
	}
}""",'an item index beyond 32 bits','the index is cut to 32 bits')
P('bt-purge-firstdirty','C18','purge-firstdirty',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 12, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	_, err = tree.PatchByKey(uint32(4), uint32(7))
	must(t, err)
	must(t, tree.Purge(false))
	s.gets = 0
	content(t, tree, seq(0, 3, 1)[:0:0])
}""",'','')
PLANTS.pop()
P('bt-purge-firstdirty','C18','purge-firstdirty',"""
func TestDemo(t *testing.T) {
	for d := 0; d < 20; d++ {
		s := newMemStore()
		tree := NewBPlusTree(4, ku, s, nil)
		put(t, tree, seq(0, 20, 1)...)
		_, _, _, err := tree.Flush(false)
		must(t, err)
		_, err = tree.PatchByKey(uint32(d), uint32(7))
		must(t, err)
		must(t, tree.Purge(false))
		for k := 0; k < 20; k++ {
			s.gets = 0
			_, _, err := tree.GetByKey(uint32(k))
			must(t, err)
		}
		s.gets = 0
		must(t, tree.Validate())
		left := s.gets
		if left != 0 {
			t.Fatalf("%d nodes fetched again", left)
		}
		_, _, _, err = tree.Flush(true)
		must(t, err)
		must(t, tree.Validate()) // everything resident and clean
		total := s.puts
		_ = total
		_, err = tree.PatchByKey(uint32(d), uint32(8))
		must(t, err)
		must(t, tree.Purge(false))
		s.gets = 0
		must(t, tree.Validate())
		_, _, _, err = tree.Flush(false)
		must(t, err)
		dim, err := tree.FetchDimensionsReport()
		must(t, err)
		s2 := s.gets
		s.puts = 0
		must(t, tree.Touch())
		_, _, _, err = tree.Flush(false)
		must(t, err)
		if want := s.puts - int(dim.Height); s2 != want {
			t.Fatalf("after Purge with item %d modified, %d nodes were fetched, want %d of %d", d, s2, want, s.puts)
		}
	}
}""",'a modified leaf that precedes unmodified ones','Purge(false) stops at the first modified leaf, leaving later unmodified nodes resident')
P('bt-layout-keeps','C18','layout-nonloaded-err',"""
func TestDemo(t *testing.T) {
	for _, cached := range []bool{false, true} {
		s := newMemStore()
		var c BPlusTreeCache
		if cached {
			c = NewBPlusTreeCache(1000, 1000)
		}
		tree := NewBPlusTree(4, ku, s, c)
		put(t, tree, seq(0, 100, 1)...)
		_, _, _, err := tree.Flush(true)
		must(t, err)
		for i := 0; i < 2; i++ {
			s.gets = 0
			_, err = tree.FetchLayoutReport()
			must(t, err)
			if i == 1 && s.gets < 40 {
				t.Fatalf("cached %v: the second report fetched only %d nodes", cached, s.gets)
			}
		}
		if cached {
			if st := c.Stats(); st.CleanLRUItems != 0 {
				t.Fatalf("%d nodes resident after a report on a purged tree", st.CleanLRUItems)
			}
		}
	}
}""",'a layout report on a tree in a cache, height three, not resident','non-leaf nodes it loads stay resident when there is a cache')
P('llrb-reject-lens','C13','llrb-del-cmperr-late',"""
func TestDemo(t *testing.T) {
	probe, larger := 0, false
	tree := NewLLRBTree(func(a, b Key) (int, error) {
		if a.(uint32) == uint32(probe) && larger == (b.(uint32) > uint32(probe)) {
			return 0, fmt.Errorf("cannot be compared")
		}
		return CompareUint32(a, b)
	}, nil)
	put(t, tree, seq(0, 80, 2)...)
	for _, larger = range []bool{false, true} {
		for probe = 1; probe < 80; probe += 2 {
			if ok, _ := tree.DeleteByKey(uint32(probe)); ok {
				t.Fatal(probe)
			}
			content(t, tree, seq(0, 80, 2))
		}
	}
}""",'a deletion rejected below the root, on a right-hand path','subtree lengths stay one too small after the rejection')
P('bt-prune-unlocked','C15',[(BT,"	tree.Lock()\n	err = tree.pruneWhileLocked()\n	tree.Unlock()\n	return\n","	tree.Lock()\n	stale := make([]staleOnDiskReferenceStruct, 0, len(tree.staleOnDiskReferencesList))\n	for staleOnDiskReference := range tree.staleOnDiskReferencesList {\n		stale = append(stale, staleOnDiskReference)\n	}\n	tree.Unlock()\n\n	for _, staleOnDiskReference := range stale {\n		err = tree.BPlusTreeCallbacks.DiscardNode(staleOnDiskReference.objectNumber, staleOnDiskReference.objectOffset, staleOnDiskReference.objectLength)\n		if nil != err {\n			return\n		}\n\n		tree.Lock()\n		delete(tree.staleOnDiskReferencesList, staleOnDiskReference)\n		tree.Unlock()\n	}\n\n	return\n")],"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 60, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	must(t, tree.Touch())
	_, _, _, err = tree.Flush(false)
	must(t, err)
	s.onDiscard = func([3]uint64) error { time.Sleep(time.Millisecond); return nil }
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() { defer wg.Done(); tree.Prune() }()
	}
	wg.Wait()
	s.check(t)
}""",'two goroutines calling Prune while locations are waiting to be discarded','Prune calls DiscardNode without the lock, so that two of them discard the same locations')
