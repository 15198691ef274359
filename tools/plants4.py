# planted bugs whose edits are shared with tools/trials (fourth set)
_g={}
for _f in ('t8','t9'):
    _h={}; exec(open('/verif/tools/trials/%s.py'%_f).read(),_h)
    for _t in _h['TR']: _g[_t[0]]=[e for e in _t[2]]
PLANTS=[]
def P(id,prop,edits,demo,needs,breaks,race=False):
    PLANTS.append(dict(id=id,property=prop,edits=_g[edits] if isinstance(edits,str) else edits,demo=demo,needs=needs,breaks=breaks,race=race))
CHURN="""
// model of a tree of uint32 keys
func run(t *testing.T, n, stride, order int) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	m := map[int]int{}
	for i := 0; i < n; i++ {
		put(t, tree, i)
		m[i] = i + 1000
	}
	step := 0
	page := func() {
		_, _, _, err := tree.Flush(true)
		must(t, err)
	}
	verify := func() {
		l, err := tree.Len()
		if err != nil || l != len(m) {
			t.Fatalf("n %d stride %d step %d: Len %d %v, want %d", n, stride, step, l, err, len(m))
		}
		at := 0
		for k := 0; k < 2*n; k++ {
			v, ok, err := tree.GetByKey(uint32(k))
			w, there := m[k]
			if err != nil || ok != there || there && v != Value(uint32(w)) {
				t.Fatalf("n %d stride %d step %d: GetByKey(%d) %v %v %v", n, stride, step, k, v, ok, err)
			}
			if there {
				g, _, ok, err := tree.GetByIndex(at)
				if err != nil || !ok || g != Key(uint32(k)) {
					t.Fatalf("n %d stride %d step %d: GetByIndex(%d) %v %v %v", n, stride, step, at, g, ok, err)
				}
				at++
			}
		}
		must(t, tree.Validate())
	}
	defer func() {
		if x := recover(); x != nil {
			t.Fatalf("n %d stride %d step %d: panic %v", n, stride, step, x)
		}
	}()
	for i, k := 0, 0; i < n; i, k = i+1, (k+stride)%n {
		step = i
		page()
		x := k
		if order == 1 {
			x = n - 1 - k
		}
		if order == 2 {
			x = n + i
			put(t, tree, x)
			m[x] = x + 1000
		} else {
			del(t, tree, x)
			delete(m, x)
		}
		// something below what was just moved
		for y := 0; y < 2*n; y += 1 + n/7 {
			if _, ok := m[y]; ok {
				page2 := (i+y)%3 == 0
				if page2 {
					page()
				}
				_, err := tree.PatchByKey(uint32(y), uint32(m[y]+1))
				must(t, err)
				m[y]++
			}
		}
		verify()
	}
}

func TestDemo(t *testing.T) {
	for _, n := range []int{17, 23, 31, 47} {
		for _, stride := range []int{1, 2, 3, 5, 7, 11} {
			if n%stride != 0 || stride == 1 {
				for order := 0; order < 3; order++ {
					run(t, n, stride, order)
				}
			}
		}
	}
}"""
for i,w in (('split-parent-loaded','a non-leaf splits'),('borrowL-parent-loaded','a non-leaf takes a child from its left sibling'),('borrowR-parent-loaded','a non-leaf takes a child from its right sibling'),('mergeR2-parent-loaded','a non-leaf absorbs its right sibling'),('mergeL2-parent-loaded','a non-leaf is absorbed by its left sibling')):
    P('bt-'+i.replace('-loaded','').lower(),'C05',i,CHURN,'a tree of height three, purged, in which '+w+' while the children moved are not resident, and a later modification below them','a child not resident when moved keeps its former parent, so that later changes below it are recorded in the wrong node')
P('bt-load-zero-total','C09','load-keeps-lens',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 30, 1)...)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	b := s.objs[[3]uint64{n, o, l}]
	for i := 0; i < 8; i++ {
		b[i] = 0
	}
	old, err := OldBPlusTree(n, o, l, ku, s, nil)
	if err == nil {
		err = old.Validate()
	}
	if err == nil {
		t.Fatal("a root stating that there are no items is taken to be sound")
	}
}""",'a non-leaf node whose stored item total is zero','a stored total of zero is taken as "unknown" and not compared with the children')
MEM="""
type held struct{ b [1 << 16]byte }

// fat is a client whose values are large
type fat struct {
	*memStore
	live *int64
	mu   *sync.Mutex
}

func (c fat) UnpackValue(p []byte) (Value, uint64, error) {
	h := &held{}
	c.add(1)
	runtime.SetFinalizer(h, func(*held) { c.add(-1) })
	return h, 0, nil
}
func (c fat) add(n int64) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	*c.live += n
	return *c.live
}
func (c fat) PackValue(Value) ([]byte, error) { return nil, nil }

func TestDemo(t *testing.T) {
	var live int64
	s := fat{newMemStore(), &live, new(sync.Mutex)}
	tree := NewBPlusTree(4, ku, s, nil)
	for i := 0; i < 200; i++ {
		if ok, err := tree.Put(uint32(i), &held{}); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	RELEASE
	for i := 0; i < 200; i++ {
		if _, ok, err := tree.GetByKey(uint32(i)); !ok || err != nil {
			t.Fatal(ok, err)
		}
	}
	RELEASE
	for i := 0; i < 100 && s.add(0) > 20; i++ {
		runtime.GC()
		time.Sleep(10 * time.Millisecond)
	}
	if x := s.add(0); x > 20 {
		t.Fatalf("%d values are still in memory though everything was released", x)
	}
	runtime.KeepAlive(tree)
}"""
P('bt-purge-keeps-memory','C18','mem-purge',MEM.replace('RELEASE','{\n\t\t_, _, _, err := tree.Flush(false)\n\t\tmust(t, err)\n\t\tmust(t, tree.Purge(true))\n\t}'),'a tree purged after use','purged nodes keep their items in memory')
P('bt-flush-keeps-memory','C18','mem-flush',MEM.replace('RELEASE','{\n\t\t_, _, _, err := tree.Flush(true)\n\t\tmust(t, err)\n\t}'),'a tree flushed with purging','nodes purged by Flush(true) keep their items in memory')
P('bt-min-clamp','C03','min-clamp-5000',"""
func TestDemo(t *testing.T) {
	const c = 12000
	tree := NewBPlusTree(c, ku, newMemStore(), nil)
	put(t, tree, seq(0, c+1, 1)...)
	d, err := tree.FetchDimensionsReport()
	must(t, err)
	if d.MinKeysPerNode != c/2 || d.MaxKeysPerNode != c {
		t.Fatalf("%+v", d)
	}
	must(t, tree.Validate())
}""",'a capacity above 10000','the minimum occupancy stops at 5000, so nodes of large capacity are less than half full')
P('bt-refitems32','C11','ref-items32',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	u64 := func(b []byte, x uint64) []byte { return binary.LittleEndian.AppendUint64(b, x) }
	// a root with two children of 2^33 items each
	b := u64(nil, 1<<34)
	b = append(b, 1, 0)
	b = u64(b, 4)
	b = u64(b, 2)
	for i := uint64(0); i < 2; i++ {
		if i == 1 {
			b = binary.LittleEndian.AppendUint32(b, 1<<31)
		}
		b = u64(u64(u64(u64(b, 100), i*4096), 4096), 1<<33)
	}
	n, o, err := s.PutNode(b)
	must(t, err)
	tree, err := OldBPlusTree(n, o, uint64(len(b)), ku, s, nil)
	must(t, err)
	l, err := tree.Len()
	must(t, err)
	if uint64(l) != 1<<34 {
		t.Fatalf("Len %d", l)
	}
}""",'an image whose child references state 2^32 items or more','item totals read from child references are cut to 32 bits')
P('bt-post-dedupe','C12','post-dedupe',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	all := s.puts
	must(t, tree.Touch())
	s.puts = 0
	_, _, _, err = tree.Flush(false)
	must(t, err)
	if s.puts != all {
		t.Fatalf("Flush after Touch wrote %d of %d nodes", s.puts, all)
	}
}""",'a node written again with the content it had','Flush keeps the old location of a node whose image did not change, so Touch no longer moves it')
P('bt-prefetch','C18','prefetch',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(true)
	must(t, err)
	d, err := tree.FetchDimensionsReport()
	must(t, err)
	must(t, tree.Purge(true))
	time.Sleep(50 * time.Millisecond)
	must(t, tree.Purge(true))
	s.Lock()
	s.gets = 0
	s.Unlock()
	_, _, err = tree.GetByKey(uint32(39))
	must(t, err)
	time.Sleep(100 * time.Millisecond)
	s.Lock()
	defer s.Unlock()
	if uint64(s.gets) > d.Height {
		t.Fatalf("a lookup in a tree of height %d fetched %d nodes", d.Height, s.gets)
	}
}""",'a lookup away from the leftmost path of a purged tree','a goroutine reads the leftmost child of every node loaded ahead')
P('bt-discard-empty-cached','C07','discard-skip-unloaded',"""
func TestDemo(t *testing.T) {
	c := NewBPlusTreeCache(100, 100)
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, c)
	put(t, tree, 1, 2)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	del(t, tree, 1, 2)
	must(t, tree.Discard())
	if x := c.Stats(); x.CleanLRUItems+x.DirtyLRUItems != 0 {
		t.Fatalf("after Discard the cache holds %+v", x)
	}
}""",'discarding an empty tree that uses a cache','Discard of an empty tree leaves its root in the shared cache')
P('bt-limits-trigger-low','C17','upd-trigger-low',"""
func TestDemo(t *testing.T) {
	c := NewBPlusTreeCache(1000, 1000)
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, c)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(false)
	must(t, err)
	was := c.Stats().CleanLRUItems
	c.UpdateLimits(was-4, was+10)
	time.Sleep(100 * time.Millisecond)
	if is := c.Stats().CleanLRUItems; is != was {
		t.Fatalf("%d of %d nodes are left though the high limit was not exceeded", is, was)
	}
}""",'limits changed such that the total lies between the low and the high one','UpdateLimits starts an eviction above the low limit already')
P('bt-capacity-mask','C04','max-32bit',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(1<<33+64, ku, s, nil)
	put(t, tree, seq(0, 20, 1)...)
	n, o, l, err := tree.Flush(false)
	must(t, err)
	old, err := OldBPlusTree(n, o, l, ku, s, nil)
	must(t, err)
	d, err := old.FetchDimensionsReport()
	must(t, err)
	if d.MaxKeysPerNode != 1<<33+64 {
		t.Fatalf("%+v", d)
	}
}""",'a capacity of 2^32 or more','the capacity kept and stored is cut to 32 bits')
P('bt-len-deep','C18','len-cached-root',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 40, 1)...)
	_, _, _, err := tree.Flush(true)
	must(t, err)
	s.gets = 0
	_, err = tree.Len()
	must(t, err)
	if s.gets > 1 {
		t.Fatalf("Len fetched %d nodes", s.gets)
	}
}""",'Len of a purged tree with a non-leaf root','Len fetches a node it does not need')
P('cmp-nil-zero','C10','cmp-nil',"""
func TestDemo(t *testing.T) {
	if r, err := CompareUint64(nil, uint64(3)); err == nil {
		t.Fatalf("CompareUint64(nil, 3) = %d", r)
	}
}""",'a nil key','CompareUint64 takes a nil key for zero')
P('bt-layout-keeps-leaves','C18','layout-nopurge-leaf',"""
func TestDemo(t *testing.T) {
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, nil)
	put(t, tree, seq(0, 8, 1)...)
	n, o, l, err := tree.Flush(true)
	must(t, err)
	old, err := OldBPlusTree(n, o, l, ku, s, nil)
	must(t, err)
	_, err = old.FetchLayoutReport()
	must(t, err)
	for k, again := 0, 0; k < 8; k++ {
		s.gets = 0
		_, _, err = old.GetByKey(uint32(k))
		must(t, err)
		if s.gets > 0 {
			again++
		}
		if k == 7 && again < 2 {
			t.Fatalf("the layout report left nodes resident: %d lookups fetched", again)
		}
	}
}""",'a layout report on a tree whose upper nodes are resident and whose leaves are not','a layout report leaves the leaves it had to load resident')
