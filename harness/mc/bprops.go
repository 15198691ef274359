package main

import (
	"bytes"
	"fmt"

	sm "github.com/NVIDIA/sortedmap"
)

func fetchLoc(t sm.BPlusTree) (l Loc, err error) {
	err = safely(func() error { l.Num, l.Off, l.Len = t.FetchLocation(); return nil })
	return
}

func fetchDims(t sm.BPlusTree) (d sm.DimensionsReport, err error) {
	err = safely(func() (e error) { d, e = t.FetchDimensionsReport(); return })
	if err != nil {
		err = fmt.Errorf("FetchDimensionsReport: %w", err)
	}
	return
}

func fetchLayout(t sm.BPlusTree) (d sm.LayoutReport, err error) {
	err = safely(func() (e error) { d, e = t.FetchLayoutReport(); return })
	if err != nil {
		err = fmt.Errorf("FetchLayoutReport: %w", err)
	}
	if d != nil { // the report is the caller's to do with as it likes
		own := d
		d = sm.LayoutReport{}
		for k, v := range own {
			d[k] = v
			own[k] = v + 1
		}
		own[1234567] = 1
	}
	return
}

func checkDims(t sm.BPlusTree, order uint64, items int, height int) error {
	d, err := fetchDims(t)
	if err != nil {
		return err
	}
	want := sm.DimensionsReport{MinKeysPerNode: order / 2, MaxKeysPerNode: order, Items: uint64(items), Height: uint64(height)}
	if d != want {
		return fmt.Errorf("FetchDimensionsReport says %+v, want %+v", d, want)
	}
	return nil
}

// ---------------------------------------------------------------- C03

// bt.shape: shape invariants and the dimensions report after the history.
func caseBTShape(w *Worker, p []int64) error {
	b, err := startBW(w, p, cfCB, codecs[0])
	if err != nil {
		return err
	}
	d1, err := fetchDims(b.t)
	if err != nil {
		return err
	}
	s, err := b.shape()
	if err != nil {
		return err
	}
	if err := checkShape(s, int(b.order)); err != nil {
		return fmt.Errorf("%w (%s)", err, s.canon())
	}
	want := sm.DimensionsReport{MinKeysPerNode: b.order / 2, MaxKeysPerNode: b.order, Items: uint64(len(b.m)), Height: uint64(s.depth + 1)}
	if d1 != want {
		return fmt.Errorf("FetchDimensionsReport said %+v, want %+v", d1, want)
	}
	t2, err := b.open(b.loc, nil)
	if err != nil {
		return err
	}
	if err := checkDims(t2, b.order, len(b.m), s.depth+1); err != nil {
		return fmt.Errorf("reopened: %w", err)
	}
	return nil
}

// bt.largeshape p=[pattern, n, del, order, cfg]: shape along large histories.
func caseBTLargeShape(w *Worker, p []int64) error {
	pat, n, del := int(p[0]), int(p[1]), int(p[2])
	b := newBW(w, uint64(p[3]), int(p[4]), codecs[0])
	ck := func() error {
		s, err := b.shape()
		if err != nil {
			return err
		}
		if err := checkShape(s, int(b.order)); err != nil {
			return fmt.Errorf("%w (%d items)", err, len(b.m))
		}
		return checkDims(b.t, b.order, len(b.m), s.depth+1)
	}
	for i, k := range patternKeys(pat, n) {
		if err := b.step(oPut, k, uint64(i)); err != nil {
			return err
		}
		if (i+1)%(n/6+1) == 0 {
			if err := ck(); err != nil {
				return err
			}
		}
	}
	for j, i := range delOrder(del, n) {
		if err := b.step(oDelI, uint64(i), 0); err != nil {
			return err
		}
		if (j+1)%(n/12+1) == 0 {
			if err := ck(); err != nil {
				return err
			}
		}
	}
	return ck()
}

// ---------------------------------------------------------------- C04

// fork makes a second handle at the given location on the same storage.
func (b *BW) fork(l Loc, m Model) (*BW, error) {
	c := *b
	c.m = m.clone()
	c.flushM = m.clone()
	c.reject = nil
	c.loc = l
	t, err := c.open(l, nil)
	if err != nil {
		return nil, err
	}
	c.t = t
	c.cache = nil
	return &c, nil
}

func (b *BW) flushChecked(purge bool, firstDirty bool) error {
	l0, err := fetchLoc(b.t)
	if err != nil {
		return err
	}
	if firstDirty && l0 != (Loc{}) {
		return fmt.Errorf("FetchLocation reports %v for a tree with unflushed modifications", l0)
	}
	if err := b.flush(purge); err != nil {
		return err
	}
	if b.loc.Len == 0 || b.st.objs[b.loc] == nil {
		return fmt.Errorf("Flush returned %v, where nothing is stored", b.loc)
	}
	l, err := fetchLoc(b.t)
	if err != nil {
		return err
	}
	if l != b.loc {
		return fmt.Errorf("Flush returned %v but FetchLocation reports %v", b.loc, l)
	}
	return nil
}

func sameFull(b *BW, height int) error {
	if err := checkAll(b.t, &b.m); err != nil {
		return err
	}
	if err := validate(b.t); err != nil {
		return err
	}
	d, err := fetchDims(b.t)
	if err != nil {
		return err
	}
	if d.MaxKeysPerNode != b.order || d.MinKeysPerNode != b.order/2 || d.Items != uint64(len(b.m)) {
		return fmt.Errorf("dimensions %+v, want capacity %d, %d items", d, b.order, len(b.m))
	}
	if b.st.bad != nil {
		return b.st.bad
	}
	return nil
}

// bt.reopen: flush before the last operation, reopen, run the last operation on both
// handles, flush both, reopen both.
func caseBTReopen(codecsUsed []int) func(w *Worker, p []int64) error {
	return func(w *Worker, p []int64) error {
		for _, ci := range codecsUsed {
			for _, purge := range []bool{false, true} {
				if err := btReopen(w, p, codecs[ci], purge); err != nil {
					return fmt.Errorf("[%s, Flush(%v)] %w", codecs[ci].name, purge, err)
				}
			}
		}
		return nil
	}
}

func histLast(p []int64) (pre []int64, op []int64) {
	h0 := 1
	if len(p) > 2 && p[1] == imageStart {
		h0 = 3 + int(p[2])
	}
	if len(p)-h0 < 3 {
		return p, nil
	}
	return p[:len(p)-3], p[len(p)-3:]
}

func btReopen(w *Worker, p []int64, c *Codec, purge bool) error {
	pre, op := histLast(p)
	b, err := startBW(w, pre, cfCB, c)
	if err != nil {
		return err
	}
	if err := b.flushChecked(purge, len(pre) == 1); err != nil {
		return err
	}
	loc := b.loc
	b2, err := b.fork(loc, b.m)
	if err != nil {
		return err
	}
	if err := checkLight(b2.t, &b2.m); err != nil {
		return fmt.Errorf("reopened tree: %w", err)
	}
	if err := validate(b2.t); err != nil {
		return fmt.Errorf("reopened tree: %w", err)
	}
	b3, err := b.fork(loc, b.m) // not warmed up by reading everything first
	if err != nil {
		return err
	}
	for i, x := range []*BW{b, b2, b3} {
		name := []string{"original handle", "reopened tree", "freshly reopened tree"}[i]
		if op != nil {
			n := x.m.clone()
			if err := x.step(int(op[0]), uint64(op[1]), uint64(op[2])); err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}
			l, err := fetchLoc(x.t)
			if err != nil {
				return err
			}
			want := loc
			if !n.equal(x.m) {
				want = Loc{}
			}
			if l != want {
				return fmt.Errorf("%s: FetchLocation after %s reports %v, want %v", name, histStr(op), l, want)
			}
		}
		if err := x.flushChecked(!purge, op != nil); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
		y, err := x.fork(x.loc, x.m)
		if err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
		if err := sameFull(y, 0); err != nil {
			return fmt.Errorf("%s reopened after %s: %w", name, histStr(op), err)
		}
		if err := checkLight(x.t, &x.m); err != nil {
			return fmt.Errorf("%s after second flush: %w", name, err)
		}
	}
	z, err := b.fork(loc, b2.flushMOld(loc, pre))
	if err != nil {
		return err
	}
	_ = z
	return nil
}

func (b *BW) flushMOld(Loc, []int64) Model { return b.flushM }

// bt.cycles: the whole history with a flush and reopen after every operation.
func caseBTCycles(w *Worker, p []int64) error {
	for ci, c := range codecs {
		b, err := startBW(w, p, cfCB|cfOld, c)
		if err != nil {
			return fmt.Errorf("[%s] %w", c.name, err)
		}
		if err := sameFull(b, 0); err != nil {
			return fmt.Errorf("[%s] %w", c.name, err)
		}
		if ci == 0 {
			b, err := startBW(w, p, cfCB|cfOld|cfCache, c)
			if err != nil {
				return fmt.Errorf("[cached] %w", err)
			}
			if err := sameFull(b, 0); err != nil {
				return fmt.Errorf("[cached] %w", err)
			}
		}
	}
	return nil
}

// bt.largecodec p=[pattern, n, del, order, codec]: large history, flush/reopen at checkpoints.
func caseBTLargeCodec(w *Worker, p []int64) error {
	pat, n, del := int(p[0]), int(p[1]), int(p[2])
	c := codecs[p[4]]
	b := newBW(w, uint64(p[3]), cfCB, c)
	ck := func() error {
		if err := b.flushChecked(len(b.m)%2 == 0, true); err != nil {
			return err
		}
		f, err := b.fork(b.loc, b.m)
		if err != nil {
			return err
		}
		if err := sameFull(f, 0); err != nil {
			return fmt.Errorf("reopened with %d items: %w", len(b.m), err)
		}
		if len(b.m)%3 == 0 { // carry on with a reopened handle
			f2, err := b.fork(b.loc, b.m)
			if err != nil {
				return err
			}
			*b = *f2
		}
		return nil
	}
	for i, k := range patternKeys(pat, n) {
		k = k * k * 37 // different packed lengths
		if err := b.step(oPut, k, uint64(i*i)); err != nil {
			return err
		}
		if (i+1)%(n/6+1) == 0 {
			if err := ck(); err != nil {
				return err
			}
		}
	}
	for j, i := range delOrder(del, n) {
		if err := b.step(oDelI, uint64(i), 0); err != nil {
			return err
		}
		if (j+1)%(n/6+1) == 0 {
			if err := ck(); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C11

// bt.format: every image written is byte-exact; images of the independent encoder are accepted.
func caseBTFormat(w *Worker, p []int64) error {
	pre, op := histLast(p)
	for _, c := range codecs {
		b, err := startBW(w, pre, cfCB, c)
		if err != nil {
			return err
		}
		ck := func(what string) (*Shape, error) {
			b.st.startTrace()
			if err := b.flush(false); err != nil {
				return nil, err
			}
			tr := b.st.stopTrace()
			for _, e := range tr {
				if e.kind != cbPut {
					continue
				}
				r, err := decodeNode(e.data, c)
				if err != nil {
					return nil, fmt.Errorf("[%s] %s: image %x: %w", c.name, what, e.data, err)
				}
				if x := encodeNode(r, c); !bytes.Equal(x, e.data) {
					return nil, fmt.Errorf("[%s] %s: image %x, want %x", c.name, what, e.data, x)
				}
			}
			s, order, err := decodeTree(b.st, b.loc, c)
			if err != nil {
				return nil, fmt.Errorf("[%s] %s: %w", c.name, what, err)
			}
			if order != b.order {
				return nil, fmt.Errorf("[%s] %s: root image states capacity %d, want %d", c.name, what, order, b.order)
			}
			if m := shapeItems(s); !m.equal(b.m) {
				return nil, fmt.Errorf("[%s] %s: images hold %v, want %v", c.name, what, m, b.m)
			}
			if err := checkSepsOnly(s); err != nil {
				return nil, fmt.Errorf("[%s] %s: %w", c.name, what, err)
			}
			return s, nil
		}
		s, err := ck("first flush")
		if err != nil {
			return err
		}
		if op != nil {
			if err := b.step(int(op[0]), uint64(op[1]), uint64(op[2])); err != nil {
				return err
			}
			if s, err = ck("flush after " + histStr(op)); err != nil {
				return err
			}
		}
		// the same tree written by the independent encoder
		st := newStore(false)
		l := writeShape(st, s, b.order, c)
		x := &BW{w: w, order: b.order, st: st, cb: &CB{st, c, false}, m: b.m.clone()}
		if x.t, err = x.open(l, nil); err != nil {
			return fmt.Errorf("[%s] well-formed image refused: %w", c.name, err)
		}
		if err := sameFull(x, 0); err != nil {
			return fmt.Errorf("[%s] well-formed image: %w", c.name, err)
		}
	}
	return nil
}

// edgeCapacities explores small trees whose capacity needs every width of the field
// that states it.
func edgeCapacities(r *Run, transKinds []string) {
	for _, o := range []int{10, 254, 256, 1<<15 + 2, 1 << 16, 1<<16 + 6, 1 << 31, 1 << 32, 1<<32 + 6, 1<<40 + 2, 1 << 62} {
		exploreBT(r, o, 4, 1000, 1, nil, transKinds)
	}
}

// checkSepsOnly checks that separators separate.
func checkSepsOnly(s *Shape) error {
	var walk func(n *Shape, lo, hi *uint64) error
	walk = func(n *Shape, lo, hi *uint64) error {
		for _, e := range n.vals {
			if (lo != nil && e.K < *lo) || (hi != nil && e.K >= *hi) {
				return fmt.Errorf("key %d is outside the keys between the child references above it", e.K)
			}
		}
		for i, k := range n.kids {
			l, h := lo, hi
			if i > 0 {
				l = &n.seps[i-1]
			}
			if i < len(n.seps) {
				h = &n.seps[i]
			}
			if err := walk(k, l, h); err != nil {
				return err
			}
		}
		return nil
	}
	return walk(s, nil, nil)
}

// ---------------------------------------------------------------- C12

type nodeSig string

func sigOf(n *Shape, root bool) nodeSig {
	s := fmt.Sprint(root, n.vals, n.seps)
	for _, k := range n.kids {
		s += fmt.Sprint(k.loc)
	}
	return nodeSig(s)
}

func (s *Shape) each(f func(n *Shape, root bool)) {
	var w func(n *Shape, root bool)
	w = func(n *Shape, root bool) {
		f(n, root)
		for _, k := range n.kids {
			w(k, false)
		}
	}
	w(s, true)
}

func (b *BW) mustQuiet(what string, f func() error) error {
	p := b.st.puts
	if err := f(); err != nil {
		return err
	}
	if b.st.puts != p {
		return fmt.Errorf("%s wrote %d nodes", what, b.st.puts-p)
	}
	return nil
}

// quietFlush: flushing must write nothing and return the same location.
func (b *BW) quietFlush(after string, purge bool) error {
	l := b.loc
	return b.mustQuiet("Flush after "+after, func() error {
		if err := b.flush(purge); err != nil {
			return err
		}
		if b.loc != l {
			return fmt.Errorf("Flush after %s returned %v, the previous one %v", after, b.loc, l)
		}
		return nil
	})
}

// nonWriting runs every kind of operation that modifies nothing.
func (b *BW) nonWriting() error {
	return b.mustQuiet("a query or report", func() error {
		if err := checkAll(b.t, &b.m); err != nil {
			return err
		}
		if err := validate(b.t); err != nil {
			return err
		}
		if _, err := fetchDims(b.t); err != nil {
			return err
		}
		if _, err := fetchLayout(b.t); err != nil {
			return err
		}
		if err := safely(b.t.Dump); err != nil {
			return fmt.Errorf("Dump: %w", err)
		}
		_, err := fetchLoc(b.t)
		return err
	})
}

// bt.writes: what gets written, around the last operation of the history.
func caseBTWrites(w *Worker, p []int64) error {
	pre, op := histLast(p)
	for _, purged := range []bool{false, true} {
		b, err := startBW(w, pre, cfCB, codecs[0])
		if err != nil {
			return err
		}
		if err := b.mustQuiet("an operation other than Flush", func() error { return b.nonWriting() }); err != nil {
			return err
		}
		if err := b.flush(purged); err != nil {
			return err
		}
		if err := b.quietFlush("nothing", purged); err != nil {
			return err
		}
		if op == nil {
			if err := b.nonWriting(); err != nil {
				return err
			}
			if err := b.quietFlush("queries, reports and rejected operations", purged); err != nil {
				return err
			}
			if err := b.mustQuiet("Purge", func() error {
				if err := b.pseudo(xPurge); err != nil {
					return err
				}
				return safely(func() error { return b.t.Purge(true) })
			}); err != nil {
				return err
			}
			if err := b.nonWriting(); err != nil {
				return err
			}
			if err := b.quietFlush("queries, reports and purges", false); err != nil {
				return err
			}
			continue
		}
		sa, _, err := decodeTree(b.st, b.loc, b.cb.c)
		if err != nil {
			return fmt.Errorf("cannot read the written nodes: %w", err)
		}
		old := map[nodeSig]bool{}
		sa.each(func(n *Shape, root bool) { old[sigOf(n, root)] = true })
		before := b.m.clone()
		if err := b.mustQuiet(histStr(op), func() error { return b.step(int(op[0]), uint64(op[1]), uint64(op[2])) }); err != nil {
			return err
		}
		if b.m.equal(before) {
			if err := b.quietFlush(histStr(op), false); err != nil {
				return err
			}
			continue
		}
		b.st.startTrace()
		if err := b.flush(false); err != nil {
			return err
		}
		written := map[Loc]bool{}
		for _, e := range b.st.stopTrace() {
			if e.kind == cbPut {
				written[e.loc] = true
			}
		}
		sb, _, err := decodeTree(b.st, b.loc, b.cb.c)
		if err != nil {
			return fmt.Errorf("cannot read the written nodes: %w", err)
		}
		var bad error
		inTree := 0
		sb.each(func(n *Shape, root bool) {
			if !written[n.loc] {
				return
			}
			inTree++
			below := false
			for _, k := range n.kids {
				below = below || written[k.loc]
			}
			if !below && old[sigOf(n, root)] && bad == nil {
				bad = fmt.Errorf("Flush after %s rewrote node %v though neither it nor anything below it changed (tree before: %s)", histStr(op), n.loc, sa.canon())
			}
		})
		if bad != nil {
			return bad
		}
		if inTree != len(written) {
			return fmt.Errorf("Flush after %s wrote %d nodes, only %d of which are in the tree", histStr(op), len(written), inTree)
		}
		if err := b.quietFlush("nothing", false); err != nil {
			return err
		}
	}
	return nil
}

// bt.touch: Touch and TouchItem.
func caseBTTouch(w *Worker, p []int64) error {
	for _, mode := range []int{0, 1, 2, 3} { // Touch / TouchItem walk, resident or purged
		b, err := startBW(w, p, cfCB, codecs[0])
		if err != nil {
			return err
		}
		if err := b.flush(mode&1 == 1); err != nil {
			return err
		}
		sa, _, err := decodeTree(b.st, b.loc, b.cb.c)
		if err != nil {
			return fmt.Errorf("cannot read the written nodes: %w", err)
		}
		leaves := 0
		var ends []uint64
		cnt := uint64(0)
		sa.each(func(n *Shape, _ bool) {
			if n.leaf() {
				leaves++
				cnt += uint64(len(n.vals))
				ends = append(ends, cnt)
			}
		})
		touch := func(i uint64) (n uint64, err error) {
			err = safely(func() (e error) { n, e = b.t.TouchItem(i); return })
			if err != nil {
				err = fmt.Errorf("TouchItem(%d): %w", i, err)
			}
			return
		}
		what := "Touch"
		if err := b.mustQuiet("touching", func() error {
			if mode < 2 {
				if err := safely(b.t.Touch); err != nil {
					return fmt.Errorf("Touch: %w", err)
				}
				return nil
			}
			what = "walking TouchItem"
			i := uint64(0)
			for l := 0; l < leaves && len(b.m) > 0; l++ {
				n, err := touch(i)
				if err != nil {
					return err
				}
				if n != ends[l] {
					return fmt.Errorf("TouchItem(%d) returned %d, want %d (leaves end at %v)", i, n, ends[l], ends)
				}
				i = n
			}
			for _, x := range []uint64{uint64(len(b.m)), uint64(len(b.m)) + 5, 1 << 63} {
				n, err := touch(x)
				if err != nil {
					return err
				}
				if n != 0 {
					return fmt.Errorf("TouchItem(%d) on %d items returned %d, want 0", x, len(b.m), n)
				}
			}
			return nil
		}); err != nil {
			return err
		}
		if mode >= 2 && len(b.m) == 0 {
			continue
		}
		l := b.loc
		puts := b.st.puts
		if err := b.flush(false); err != nil {
			return err
		}
		if got := b.st.puts - puts; got != sa.nodes() || b.loc == l {
			return fmt.Errorf("Flush after %s wrote %d of %d nodes (mode %d)", what, got, sa.nodes(), mode)
		}
		sb, _, err := decodeTree(b.st, b.loc, b.cb.c)
		if err != nil {
			return err
		}
		olds := sa.locs(nil)
		for x := range sb.locs(nil) {
			if olds[x] {
				return fmt.Errorf("Flush after %s kept the old node %v", what, x)
			}
		}
		if err := checkLight(b.t, &b.m); err != nil {
			return err
		}
		// TouchItem from the middle of each leaf: the first key of the following leaf is next
		if mode >= 2 {
			li := 0
			for i := range b.m {
				if uint64(i) >= ends[li] {
					li++
				}
				n, err := touch(uint64(i))
				if err != nil {
					return err
				}
				if n != ends[li] {
					return fmt.Errorf("TouchItem(%d) returned %d, want %d", i, n, ends[li])
				}
			}
		}
	}
	return nil
}

// bt.touchone p: TouchItem(i) then flush rewrites exactly that leaf and its ancestors.

// ---------------------------------------------------------------- C13

const (
	rejAll = iota
	rejLarger
	rejSmaller
	nRejModes
)

func rejecter(x uint64, mode int) func(a, b uint64) bool {
	return func(a, b uint64) bool {
		o := a
		if a == x {
			o = b
		} else if b != x {
			return false
		}
		switch mode {
		case rejLarger:
			return o > x
		case rejSmaller:
			return o < x
		}
		return true
	}
}

var rejOps = []int{oGet, oPut, oDel, oPat, oBisL, oBisR}

// rejectOne tries one operation with a rejecting comparator on any map.
func rejectOne(t sm.SortedMap, m *Model, set func(f func(a, b uint64) bool), hit func() bool, op int, x uint64, mode int) error {
	set(rejecter(x, mode))
	var got opRes
	err := safely(func() (e error) { got, e = callOp(t, op, x, 77); return })
	h := hit()
	set(nil)
	if pe, ok := err.(panicErr); ok {
		return fmt.Errorf("%s with a rejecting comparator: %w", opStr(op, x, 77), pe)
	}
	if h && err == nil {
		return fmt.Errorf("%s on %v succeeded (%+v) though the comparator rejected the key (mode %d)", opStr(op, x, 77), *m, got, mode)
	}
	if mode == rejAll && len(*m) > 0 && err == nil {
		return fmt.Errorf("%s on %v succeeded (%+v) though the key is comparable with nothing", opStr(op, x, 77), *m, got)
	}
	if err == nil {
		want := modelOp(m, op, x, 77)
		if got != want {
			return fmt.Errorf("%s: got %+v, want %+v", opStr(op, x, 77), got, want)
		}
		return nil
	}
	if err := checkLight(t, m); err != nil {
		return fmt.Errorf("after a rejected %s (mode %d): %w", opStr(op, x, 77), mode, err)
	}
	return nil
}

// bt.reject
func caseBTReject(w *Worker, p []int64) error {
	for _, op := range rejOps {
		for mode := 0; mode < nRejModes; mode++ {
			for purge := 0; purge < 2; purge++ {
				b, err := startBW(w, p, cfCB, codecs[0])
				if err != nil {
					return err
				}
				sh, err := b.shape()
				if err != nil {
					return err
				}
				var keys []uint64
				if mode == rejAll {
					for _, e := range b.m {
						keys = append(keys, e.K)
					}
				}
				keys = append(keys, putKeys(b.m, sh)...)
				if len(b.m) == 0 {
					return nil
				}
				loc := b.loc
				orig := b.m.clone()
				changed := false
				for _, x := range keys {
					if purge == 1 {
						if err := b.flush(true); err != nil {
							return err
						}
						loc = b.loc
					}
					before := b.m.clone()
					b.rejHit = false
					err := rejectOne(b.t, &b.m, func(f func(a, c uint64) bool) { b.reject = f }, func() bool { return b.rejHit }, op, x, mode)
					if err != nil {
						return err
					}
					if !before.equal(b.m) { // not rejected: take it back
						changed = true
						if op == oPut {
							if err := b.step(oDel, x, 0); err != nil {
								return err
							}
						}
					}
					if purge == 1 && !changed {
						p := b.st.puts
						if err := b.flush(false); err != nil {
							return err
						}
						if b.st.puts != p || b.loc != loc {
							return fmt.Errorf("the flush after a rejected %s wrote %d nodes", opStr(op, x, 77), b.st.puts-p)
						}
					}
				}
				if changed {
					continue
				}
				if err := b.quietFlush("rejected "+mapOpNames[op]+"s", false); err != nil {
					return err
				}
				if b.loc != loc || !orig.equal(b.m) {
					return fmt.Errorf("internal: reference changed")
				}
				if err := validate(b.t); err != nil {
					return err
				}
				if err := checkAll(b.t, &b.m); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// bt.rejecttrans: a rejected operation before the last operation of the history changes nothing about it.
func caseBTRejectTrans(w *Worker, p []int64) error {
	pre, op := histLast(p)
	if op == nil {
		return nil
	}
	key := uint64(op[1])
	code := int(op[0])
	if code == oDelI {
		return nil
	}
	b, err := startBW(w, pre, cfCB, codecs[0])
	if err != nil {
		return err
	}
	if len(b.m) == 0 {
		return nil
	}
	b.rejHit = false
	if err := rejectOne(b.t, &b.m, func(f func(a, c uint64) bool) { b.reject = f }, func() bool { return b.rejHit }, code, key, rejAll); err != nil {
		return err
	}
	if err := b.step(code, key, uint64(op[2])); err != nil {
		return err
	}
	if err := validate(b.t); err != nil {
		return err
	}
	return checkLight(b.t, &b.m)
}

// llrb.reject
func caseLLRBReject(_ *Worker, p []int64) error {
	for _, op := range rejOps {
		for mode := 0; mode < nRejModes; mode++ {
			w := newLLRBWorld()
			if err := replayLLRB(w, p); err != nil {
				return err
			}
			if len(w.m) == 0 {
				return nil
			}
			var keys []uint64
			if mode == rejAll {
				for _, e := range w.m {
					keys = append(keys, e.K)
				}
			}
			keys = append(keys, gapKeys(w.m)...)
			for _, x := range keys {
				hit := false
				before := w.m.clone()
				err := rejectOne(w.t, &w.m, func(f func(a, b uint64) bool) {
					w.reject = nil
					if f != nil {
						w.reject = func(a, b uint64) bool {
							r := f(a, b)
							hit = hit || r
							return r
						}
					}
				}, func() bool { return hit }, op, x, mode)
				if err != nil {
					return err
				}
				if !before.equal(w.m) && op == oPut {
					if err := exec(w.t, &w.m, oDel, x, 0); err != nil {
						return err
					}
				}
			}
			if err := validate(w.t); err != nil {
				return err
			}
			if err := checkAll(w.t, &w.m); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	keysAssump := "keys are uint64 under a total order; callbacks satisfy their contracts; results depend on keys only through the comparator"
	for _, k := range []string{"bt.shape", "bt.reopen", "bt.reopen1", "bt.cycles", "bt.format", "bt.writes", "bt.touch", "bt.reject", "bt.rejecttrans"} {
		describe[k] = btHistStr
	}
	kinds["bt.shape"] = caseBTShape
	kinds["bt.largeshape"] = caseBTLargeShape
	kinds["bt.reopen"] = caseBTReopen([]int{0, 1, 2, 3})
	kinds["bt.reopen1"] = caseBTReopen([]int{1})
	kinds["bt.cycles"] = caseBTCycles
	kinds["bt.largecodec"] = caseBTLargeCodec
	kinds["bt.format"] = caseBTFormat
	kinds["bt.writes"] = caseBTWrites
	kinds["bt.touch"] = caseBTTouch
	kinds["bt.reject"] = caseBTReject
	kinds["bt.rejecttrans"] = caseBTRejectTrans
	kinds["llrb.reject"] = caseLLRBReject
	describe["llrb.reject"] = histStr
	for _, p := range []string{"C03", "C04", "C11", "C12", "C13"} {
		levels[p] = "model_checking"
		assumptions[p] = []string{keysAssump}
	}
	checks["C03"] = func(r *Run) {
		exploreLLRB(r, pickTier(r, 17, 22), pickTier(r, 20000, 200000), []string{"llrb.cost"}, nil)
		llrbLarge(r, pickTier(r, []int{31, 100, 257}, []int{31, 64, 100, 257, 600, 1025, 2050}), 1)
		exploreImages(r, imageSpecs(2, 5), []string{"bt.shape"}, []bool{false, true})
		exploreImages(r, imageSpecs(3, pickTier(r, 2, 3)), []string{"bt.shape"}, pickTier(r, []bool{true}, []bool{false, true}))
		exploreBT(r, 4, pickTier(r, 13, 16), pickTier(r, 40000, 400000), 2, nil, []string{"bt.shape"})
		exploreBT(r, 6, pickTier(r, 12, 16), pickTier(r, 20000, 200000), 2, nil, []string{"bt.shape"})
		btLarge(r, "bt.largeshape", pickTier(r, []int{40, 130}, []int{40, 130, 400, 1000}), []int{4, 6, 8, 10, 16, 32, 64, 100, 1000}, []int{cfCB})
		huge(r, 20000, 4, 6)
		huge(r, 3500, 64, 256, 1000)
		huge(r, 15000, 2048, 4094)
		huge(r, 75000, 10000, 16384, 30000)
		hugePart(r, 300000, 65536, 100000, 131072)
		edgeCapacities(r, []string{"bt.shape"})
		pgClosures(r, 3)
		explorePaging(r, 3, pgC03Jobs(r))
		r.sample("LLRB lookups of every present key and every gap on every shape; B+Tree shapes read back from storage after %s", btHistStr([]int64{4, oPut, 100, 1, oPut, 50, 2, oPut, 60, 2}))
	}
	checks["C04"] = func(r *Run) {
		exploreImages(r, imageSpecs(2, 5), []string{"bt.reopen1"}, []bool{false})
		exploreImages(r, imageSpecs(3, pickTier(r, 2, 3)), []string{"bt.reopen1"}, []bool{true})
		exploreBT(r, 4, pickTier(r, 11, 14), pickTier(r, 40000, 400000), 2, []string{"bt.cycles"}, []string{"bt.reopen"})
		exploreBT(r, 6, pickTier(r, 9, 13), pickTier(r, 20000, 200000), 1, []string{"bt.cycles"}, []string{"bt.reopen"})
		pgClosures(r, 4)
		explorePaging(r, 4, pgC04Jobs(r))
		btLarge(r, "bt.largecodec", pickTier(r, []int{60}, []int{60, 300, 1000}), []int{4, 6, 8, 16, 64, 1000}, []int{0, 1, 2, 3})
		edgeCapacities(r, []string{"bt.reopen"})
		huge(r, 300, 4, 64, 1000)
		huge(r, 66000, 140000)
		r.sample("flush, reopen, operate on both handles, flush, reopen: %s", btHistStr([]int64{4, oPut, 100, 1, oPut, 50, 2, oPut, 60, 2}))
	}
	checks["C11"] = func(r *Run) {
		exploreImages(r, imageSpecs(2, 5), []string{"bt.format"}, []bool{false})
		exploreImages(r, imageSpecs(3, pickTier(r, 2, 3)), []string{"bt.format"}, []bool{true})
		exploreBT(r, 4, pickTier(r, 11, 14), pickTier(r, 40000, 400000), 2, nil, []string{"bt.format"})
		exploreBT(r, 8, pickTier(r, 9, 13), pickTier(r, 20000, 200000), 1, nil, []string{"bt.format"})
		edgeCapacities(r, []string{"bt.format"})
		huge(r, 300, 4, 64, 1000)
		huge(r, 66000, 140000)
		exploreTotals(r)
		pgClosures(r, 11)
		r.sample("every image decoded and re-encoded independently after %s", btHistStr([]int64{4, oPut, 100, 1, oPut, 50, 2, oPut, 60, 2}))
	}
	checks["C12"] = func(r *Run) {
		exploreImages(r, imageSpecs(2, 5), []string{"bt.writes"}, []bool{false})
		exploreImages(r, imageSpecs(3, pickTier(r, 2, 3)), []string{"bt.writes"}, []bool{true})
		exploreBT(r, 4, pickTier(r, 12, 15), pickTier(r, 40000, 400000), 2, []string{"bt.touch", "bt.patchwrites"}, []string{"bt.writes"})
		pgClosures(r, 12)
		explorePaging(r, 12, pgC12Jobs(r))
		r.sample("which nodes the flush after one operation writes: %s", btHistStr([]int64{4, oPut, 100, 1, oPut, 50, 2, oPut, 60, 2}))
	}
	checks["C13"] = func(r *Run) {
		exploreLLRB(r, pickTier(r, 11, 15), pickTier(r, 20000, 100000), []string{"llrb.reject"}, nil)
		exploreBT(r, 4, pickTier(r, 11, 14), pickTier(r, 40000, 400000), 1, []string{"bt.reject"}, []string{"bt.rejecttrans"})
		exploreImages(r, imageSpecs(2, 5), []string{"bt.rejecttrans"}, []bool{false})
		exploreImages(r, imageSpecs(3, 2), []string{"bt.rejecttrans"}, pickTier(r, []bool{true}, []bool{false, true}))
		pgClosures(r, 13)
		r.sample("every operation, key position and comparator failure mode on every shape, e.g. %s", btHistStr([]int64{4, oPut, 100, 1, oPut, 50, 2, oPut, 60, 2}))
	}
	kinds["bt.patchwrites"] = func(w *Worker, p []int64) error {
		b, err := startBW(w, p, cfCB, codecs[0])
		if err != nil {
			return err
		}
		n := len(b.m)
		for i := 0; i < n; i++ {
			for _, op := range []int64{oPat, oPatI} {
				a := int64(i)
				if op == oPat {
					a = int64(b.m[i].K)
				}
				h := append(append([]int64(nil), p...), op, a, 5000+op)
				if err := caseBTWrites(w, h); err != nil {
					return err
				}
			}
		}
		return caseBTWrites(w, p[:1])
	}
	describe["bt.patchwrites"] = btHistStr
}
