package main

import (
	"fmt"

	sm "github.com/NVIDIA/sortedmap"
)

// World configuration bits.
const (
	cfCB    = 1  // client callbacks given
	cfCache = 2  // tiny node cache given
	cfFlush = 4  // flush after every operation (so that the cache evicts)
	cfPurge = 8  // flush and purge after every operation
	cfBox   = 32 // keys and values of types that cannot be compared
	cfOld   = 16 // reopen from storage after every operation
)

// BW is one B+Tree with its storage, its cache and its reference.
type BW struct {
	w      *Worker
	st     *Store
	cb     *CB
	order  uint64
	cfg    int
	t      sm.BPlusTree
	m      Model
	cache  sm.BPlusTreeCache
	cmps   int
	reject func(a, b uint64) bool
	rejHit bool
	loc    Loc // last flushed location
	flushM Model
}

func (b *BW) compare(x, y sm.Key) (int, error) {
	b.cmps++
	if b.cfg&cfBox != 0 {
		p, ok1 := unboxK(x)
		q, ok2 := unboxK(y)
		if !ok1 || !ok2 {
			return 0, errNotUint
		}
		x, y = p, q
	}
	if b.reject != nil {
		p, ok1 := x.(uint64)
		q, ok2 := y.(uint64)
		if ok1 && ok2 && b.reject(p, q) {
			b.rejHit = true
			return int((p+q)%3) - 1, errIncomparable // the number means nothing
		}
	}
	return cmpU64(x, y)
}

func newBW(w *Worker, order uint64, cfg int, c *Codec) *BW {
	b := &BW{w: w, order: order, cfg: cfg, st: newStore(false)}
	b.cb = &CB{b.st, c, cfg&cfBox != 0}
	if cfg&cfCache != 0 {
		b.cache = sm.NewBPlusTreeCache(1, 2)
	}
	b.t = b.create()
	return b
}

func (b *BW) create() sm.BPlusTree {
	if b.cfg&cfCB == 0 {
		return b.boxed(sm.NewBPlusTree(b.order, b.compare, nil, b.cache))
	}
	return b.boxed(sm.NewBPlusTree(b.order, b.compare, b.cb, b.cache))
}

func (b *BW) boxed(t sm.BPlusTree) sm.BPlusTree {
	if b.cfg&cfBox != 0 {
		return boxedBT{t, newBoxedMap(t)}
	}
	return t
}

func (b *BW) drain() error {
	if b.cache != nil {
		return b.w.drain()
	}
	return nil
}

// flush flushes, checks the call's own result and remembers the location.
func (b *BW) flush(purge bool) error {
	var l Loc
	err := safely(func() (e error) { l.Num, l.Off, l.Len, e = b.t.Flush(purge); return })
	if err != nil {
		return fmt.Errorf("Flush(%v): %w", purge, err)
	}
	if b.st.bad != nil {
		return b.st.bad
	}
	b.loc, b.flushM = l, b.m.clone()
	return b.drain()
}

// open opens the tree at l as a separate handle on the same storage.
func (b *BW) open(l Loc, cache sm.BPlusTreeCache) (sm.BPlusTree, error) {
	var t sm.BPlusTree
	err := safely(func() (e error) {
		t, e = sm.OldBPlusTree(l.Num, l.Off, l.Len, b.compare, b.cb, cache)
		return
	})
	if err != nil {
		return nil, fmt.Errorf("OldBPlusTree(%v): %w", l, err)
	}
	return b.boxed(t), nil
}

func (b *BW) step(code int, a, v uint64) error {
	if b.cb != nil && b.cb.c.noVals {
		v = 0
	}
	if err := exec(b.t, &b.m, code, a, v); err != nil {
		return err
	}
	if err := b.drain(); err != nil {
		return err
	}
	switch {
	case b.cfg&cfOld != 0:
		if err := b.flush(false); err != nil {
			return err
		}
		t, err := b.open(b.loc, b.cache)
		if err != nil {
			return err
		}
		b.t = t
		return b.drain()
	case b.cfg&cfPurge != 0:
		return b.flush(true)
	case b.cfg&cfFlush != 0:
		return b.flush(false)
	}
	return nil
}

// Pseudo operations in histories.
const (
	xValidate  = -2 // loads everything
	xFlush     = -3
	xFlushP    = -4
	xPurge     = -5
	xReopen    = -6
	imageStart = -100
)

// startBW builds the world a case starts in: p is [order, hist...] or
// [order, imageStart, len(spec), spec..., hist...].
func startBW(w *Worker, p []int64, cfg int, c *Codec) (*BW, error) {
	order, h := uint64(p[0]), p[1:]
	if len(h) == 0 || h[0] != imageStart {
		b := newBW(w, order, cfg, c)
		return b, b.replay(h)
	}
	n := int(h[1])
	sh, m := specShape(h[2:2+n], int(order))
	b := newBW(w, order, cfg|cfCB, c)
	if c.noVals {
		for i := range m {
			m[i].V = 0
		}
	}
	l := writeShape(b.st, sh, order, c)
	b.m, b.flushM, b.loc = m, m.clone(), l
	t, err := b.open(l, b.cache)
	if err != nil {
		return nil, err
	}
	b.t = t
	return b, b.replay(h[2+n:])
}

// specShape builds a tree of height two or three: spec = [k, c1..ck, fill, dev, devsize]
// gives a root with k children, the i-th of them a non-leaf with ci leaves (ci == 0: itself
// a leaf), all leaves holding fill keys but number dev, which holds devsize.
func specShape(spec []int64, order int) (*Shape, Model) {
	k := int(spec[0])
	cs := spec[1 : 1+k]
	fill, dev, devn := int(spec[1+k]), int(spec[2+k]), int(spec[3+k])
	var m Model
	next := uint64(1 << 40)
	nleaf := 0
	leaf := func() *Shape {
		s := &Shape{}
		n := fill
		if nleaf == dev {
			n = devn
		}
		nleaf++
		for i := 0; i < n; i++ {
			e := KV{next, uint64(len(m))*3 + 1}
			s.vals = append(s.vals, e)
			m = append(m, e)
			next += 1 << 32
		}
		return s
	}
	first := func(s *Shape) uint64 {
		for !s.leaf() {
			s = s.kids[0]
		}
		return s.vals[0].K
	}
	add := func(p, c *Shape) {
		if len(p.kids) > 0 {
			p.seps = append(p.seps, first(c))
		}
		p.kids = append(p.kids, c)
		if c.depth+1 > p.depth {
			p.depth = c.depth + 1
		}
	}
	root := &Shape{}
	for _, c := range cs {
		if c == 0 {
			add(root, leaf())
			continue
		}
		n := &Shape{}
		for i := int64(0); i < c; i++ {
			add(n, leaf())
		}
		add(root, n)
	}
	return root, m
}

func (b *BW) pseudo(code int) error {
	switch code {
	case xValidate:
		return validate(b.t)
	case xFlush:
		return b.flush(false)
	case xFlushP:
		return b.flush(true)
	case xPurge:
		if err := safely(func() error { return b.t.Purge(false) }); err != nil {
			return fmt.Errorf("Purge(false): %w", err)
		}
		return nil
	case xReopen:
		if err := b.flush(false); err != nil {
			return err
		}
		t, err := b.open(b.loc, b.cache)
		if err != nil {
			return err
		}
		b.t = t
		return nil
	}
	panic("bad pseudo operation")
}

// replay executes a history of (code, a, v) triples.
func (b *BW) replay(p []int64) error {
	for i := 0; i+2 < len(p); i += 3 {
		if p[i] < 0 {
			if err := b.pseudo(int(p[i])); err != nil {
				return fmt.Errorf("step %d: %w", i/3, err)
			}
			continue
		}
		if err := b.step(int(p[i]), uint64(p[i+1]), uint64(p[i+2])); err != nil {
			return fmt.Errorf("step %d: %w", i/3, err)
		}
	}
	return nil
}

// shape flushes everything (by touching first if the tree has been flushed before)
// and reads the tree's shape back: from the storage images, or failing that from the
// order of the callbacks.
func (b *BW) shape() (*Shape, error) {
	b.st.startTrace()
	if err := b.flush(false); err != nil {
		return nil, err
	}
	tr := b.st.stopTrace()
	s, _, err := decodeTree(b.st, b.loc, b.cb.c)
	if err == nil {
		return s, nil
	}
	s, err2 := shapeFromTrace(tr)
	if err2 != nil {
		return nil, fmt.Errorf("cannot tell the tree's shape: %v; %v", err, err2)
	}
	return s, nil
}

// elements lists the live keys and separators of a shape in order, without repetition.
func elements(m Model, s *Shape) []uint64 {
	seps := s.allSeps(nil)
	var out []uint64
	i, j := 0, 0
	for i < len(m) || j < len(seps) {
		var k uint64
		if j >= len(seps) || (i < len(m) && m[i].K <= seps[j]) {
			k = m[i].K
			i++
		} else {
			k = seps[j]
			j++
		}
		if len(out) == 0 || out[len(out)-1] != k {
			out = append(out, k)
		}
	}
	return out
}

const keyStep = 1 << 40

// freshKeys lists one absent key per gap of the sorted elements es.
func freshKeys(es []uint64) []uint64 {
	if len(es) == 0 {
		return []uint64{1 << 62}
	}
	var out []uint64
	if es[0] > keyStep {
		out = append(out, es[0]-keyStep)
	} else if es[0] > 0 {
		out = append(out, es[0]/2)
	}
	for i := 1; i < len(es); i++ {
		if es[i]-es[i-1] > 1 {
			out = append(out, keyBetween(es[i-1], es[i]))
		}
	}
	l := es[len(es)-1]
	if ^uint64(0)-l > keyStep {
		out = append(out, l+keyStep)
	} else if l < ^uint64(0) {
		out = append(out, keyBetween(l, ^uint64(0)))
	}
	return out
}

// putKeys lists the absent keys worth putting: one per gap, and every separator no longer present.
func putKeys(m Model, s *Shape) []uint64 {
	es := elements(m, s)
	out := freshKeys(es)
	for _, e := range es {
		if _, f := m.find(e); !f {
			out = append(out, e)
		}
	}
	return out
}

func btHistStr(p []int64) string {
	h := p[1:]
	if len(h) > 2 && h[0] == imageStart {
		n := int(h[1])
		return fmt.Sprintf("capacity %d, stored tree %v: %s", p[0], h[2:2+n], histStr(h[2+n:]))
	}
	return fmt.Sprintf("capacity %d: %s", p[0], histStr(h))
}

// shapeOps lists the operations explored from a state.
func shapeOps(m Model, s *Shape, maxN int, idxToo bool) [][3]int64 {
	var ops [][3]int64
	if len(m) < maxN {
		for _, g := range putKeys(m, s) {
			ops = append(ops, [3]int64{oPut, int64(g), int64(g%97 + 1)})
		}
	}
	for i, e := range m {
		ops = append(ops, [3]int64{oDel, int64(e.K), 0})
		if idxToo {
			ops = append(ops, [3]int64{oDelI, int64(i), 0})
		}
	}
	return ops
}

// exploreBT walks all B+Tree shapes of the given capacity with at most maxN items.
// stateKinds are executed as cases on every state's history, transKinds on every
// transition's (the history including the last operation).
func exploreBT(r *Run, order, maxN, maxStates, reps int, stateKinds, transKinds []string) {
	name := fmt.Sprintf("b+tree shapes of capacity %d", order)
	r.bfs(name, []bfsState{{[]int64{int64(order)}, ""}}, maxStates, reps, func(wk *Worker, s bfsState, emit func([]int64, string, string)) {
		for _, k := range stateKinds {
			if !wk.do(k, s.hist) {
				return
			}
		}
		var m Model
		var sh *Shape
		wk.begin("bt.content", s.hist)
		err := safely(func() (e error) {
			b, e := startBW(wk, s.hist, cfCB, codecs[0])
			if e != nil {
				return
			}
			m = b.m.clone()
			sh, e = b.shape()
			return
		})
		if err != nil {
			r.violate(Case{"bt.content", s.hist}, err)
			return
		}
		for _, o := range shapeOps(m, sh, maxN, true) {
			if r.expired() {
				return
			}
			h := append(append(make([]int64, 0, len(s.hist)+3), s.hist...), o[0], o[1], o[2])
			r.trans.Add(1)
			for _, k := range transKinds {
				if !wk.do(k, h) {
					return
				}
			}
			var key, sub string
			wk.begin("bt.content", h)
			err := safely(func() error {
				b, e := startBW(wk, h, cfCB, codecs[0])
				if e != nil {
					return e
				}
				if reps > 1 {
					sub = fmt.Sprint(fingerprint(func(k uint64) uint64 { i, _ := b.m.find(k); return uint64(i) }, b.t))
				}
				sh, e := b.shape()
				if e != nil {
					return e
				}
				key = sh.canon()
				return nil
			})
			if err != nil {
				r.violate(Case{"bt.content", h}, err)
				return
			}
			emit(h, key, sub)
		}
	})
}

// imageSpecs lists the stored starting trees of capacity 4 used besides the reachable
// shapes: heights two and three, all child counts, all fills, one deviating leaf.
func imageSpecs(height, maxK int) [][]int64 {
	var out [][]int64
	addFill := func(cs []int64) {
		k := int64(len(cs))
		leaves := int64(0)
		for _, c := range cs {
			if c == 0 {
				leaves++
			} else {
				leaves += c
			}
		}
		for fill := int64(2); fill <= 4; fill++ {
			for dev := int64(-1); dev < leaves; dev++ {
				for dn := int64(2); dn <= 4; dn++ {
					if dn == fill || (dev == -1 && dn != (fill%3)+2) {
						continue
					}
					sp := append([]int64{k}, cs...)
					out = append(out, append(sp, fill, dev, dn))
				}
			}
		}
	}
	for k := 2; k <= maxK; k++ {
		if height == 2 {
			addFill(make([]int64, k))
			continue
		}
		cs := make([]int64, k)
		var rec func(i int)
		rec = func(i int) {
			if i == k {
				addFill(append([]int64(nil), cs...))
				return
			}
			for c := int64(3); c <= 5; c++ {
				cs[i] = c
				rec(i + 1)
			}
		}
		rec(0)
	}
	return out
}

// exploreImages executes transKinds on every operation from every stored starting
// tree, once with only what the operation loads resident, once with everything resident.
func exploreImages(r *Run, specs [][]int64, transKinds []string, resid []bool) {
	r.each(len(specs), func(w *Worker, i int) {
		sp := specs[i]
		sh, m := specShape(sp, 4)
		base := append([]int64{4, imageStart, int64(len(sp))}, sp...)
		for _, res := range resid {
			pre := base
			if res {
				pre = append(append([]int64(nil), base...), xValidate, 0, 0)
			}
			for _, o := range shapeOps(m, sh, 1<<30, false) {
				if r.expired() {
					return
				}
				h := append(append(make([]int64, 0, len(pre)+3), pre...), o[0], o[1], o[2])
				for _, k := range transKinds {
					if !w.do(k, h) {
						return
					}
				}
				r.trans.Add(1)
			}
		}
		r.states.Add(1)
		r.part("stored starting trees", 1)
	})
	if r.expired() && !r.stop.Load() {
		r.over("stored starting trees")
	}
}
