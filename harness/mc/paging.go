package main

import (
	"bytes"
	"fmt"
	"sort"

	sm "github.com/NVIDIA/sortedmap"
)

// Exploration of data operations interleaved with paging operations.

const (
	pPutF = iota
	pPutM
	pPutL
	pDelF
	pDelM
	pDelL
	pDelIM
	pPatM
	pPatIL
	pGetF
	pGetM
	pGetL
	pGetIM
	pBisM
	pRej
	pLen
	pGetA // absent key
	pDelA
	pPatA
	pPutD // present key
)
const (
	pFlush = iota + 20
	pFlushP
	pPurge
	pPurgeT
	pTouch
	pTI0
	pTIM
	pPrune
	pLayout
	pDim
	pVal
	pDump
	pEvict
	pLim00
	pLim12
	pLimBig
	pDiscard
	pLim24
	pLim14
	pLim04
)

// Operations on many items, for large trees.
const (
	mPatAll = iota + 60
	mPatSome
	mPutMany
	mDelMany
	mDelRange
	mGetAll
	mTIAll
	mDelAll
)

var pNames = map[int]string{pPutF: "Put(before first)", pPutM: "Put(middle)", pPutL: "Put(after last)", pDelF: "Delete(first)", pDelM: "Delete(middle)", pDelL: "Delete(last)", pDelIM: "DeleteByIndex(middle)", pPatM: "PatchByKey(middle)", pPatIL: "PatchByIndex(last)", pGetF: "Get(first)", pGetM: "Get(middle)", pGetL: "Get(last)", pGetIM: "GetByIndex(middle)", pBisM: "Bisect(middle)", pRej: "rejected operations", pLen: "Len", pGetA: "Get(absent)", pDelA: "Delete(absent)", pPatA: "PatchByKey(absent)", pPutD: "Put(present)",
	pFlush: "Flush(false)", pFlushP: "Flush(true)", pPurge: "Purge(false)", pPurgeT: "Purge(true)", pTouch: "Touch", pTI0: "TouchItem(0)", pTIM: "TouchItem(middle)", pPrune: "Prune", pLayout: "FetchLayoutReport", pDim: "FetchDimensionsReport", pVal: "Validate", pDump: "Dump", pEvict: "evict all", pLim00: "UpdateLimits(0,0)", pLim12: "UpdateLimits(1,2)", pLim24: "UpdateLimits(2,4)", pLim14: "UpdateLimits(1,4)", pLim04: "UpdateLimits(0,4)", pLimBig: "UpdateLimits(big)", pDiscard: "Discard",
	mPatAll: "PatchByKey(every key)", mPatSome: "PatchByIndex(every fifth)", mPutMany: "Put(into every gap)", mDelMany: "Delete(every second key)", mDelRange: "DeleteByIndex(middle half)", mGetAll: "Get(every key)", mTIAll: "TouchItem(all)", mDelAll: "DeleteByIndex(all, from the middle)"}

// PT is one tree of a paging world.
type PT struct {
	*BW
	dirty      bool // reference: unflushed modifications or touches
	hasC       bool // a flush has completed
	c          Loc
	cm         Model
	dead       bool
	maybe      bool // an operation that would modify it has failed
	touched    bool // every node was touched since the last flush
	unrec      bool // pruned with modifications unflushed: the last flush is given up
	vals       uint64
	res        *residency
	univ       []KV  // keys of closure operations
	opened     []Loc // fetched when it was opened
	preLoc, fl Loc
	sure       map[Loc][]byte // images from which the last flush was seen to be recoverable
}

type PW struct {
	w         *Worker
	trees     []*PT
	cache     sm.BPlusTreeCache
	low, high uint64
	crash     bool  // check recovery at every storage operation
	noPuts    bool  // only flushes may write
	crashErr  error // first recovery failure
	crashes   int
}

const limBig = 1 << 20

var pgLimits = [][2]uint64{{limBig, limBig}, {0, 0}, {1, 2}, {2, 4}, {1, 5}, {70, 150}}

// bases of a paging world: nil is a new tree, otherwise a stored tree.
var pgBases = [][]int64{
	nil,
	{0},                    // stored empty tree
	{1},                    // stored single leaf
	{3, 0, 0, 0, 2, -1, 3}, // three minimal leaves
	{3, 0, 0, 0, 4, -1, 3}, // three full leaves
	{2, 3, 3, 2, -1, 3},    // height three, everything minimal
	{2, 5, 5, 4, 9, 2},     // height three, full but for the last leaf
	{2, 3, 4, 2, 3, 3},     // height three, something to borrow on the right
	{2, 0, 0, 2, -1, 3},    // two minimal leaves
	{3, 3, 3, 3, 2, -1, 3}, // height three, three minimal non-leaves
	{5, 0, 0, 0, 0, 0, 4, -1, 3},
	{-300, 2}, // large trees
	{-300, 4},
	{-200, 3},
	{4}, // a full single leaf
}

func pgShape(spec []int64) (*Shape, Model) {
	if spec[0] < 0 {
		return bulkShape(int(-spec[0]), int(spec[1]))
	}
	if len(spec) == 1 {
		s := &Shape{}
		var m Model
		n := spec[0]
		if n == 1 {
			n = 3
		}
		for i := int64(0); i < n; i++ {
			e := KV{uint64(1<<40 + i<<32), uint64(i)}
			s.vals = append(s.vals, e)
			m = append(m, e)
		}
		return s, m
	}
	return specShape(spec, 4)
}

// bulkShape builds a stored tree of n items with about fill keys in every node.
func bulkShape(n, fill int) (*Shape, Model) {
	var m Model
	for i := 0; i < n; i++ {
		m = append(m, KV{uint64(1)<<50 + uint64(i)<<40, uint64(i)})
	}
	split := func(total, per int) (sizes []int) {
		g := (total + per - 1) / per
		if total/g < per { // not full: prefer fewer, fuller nodes
			g = max(1, total/per)
		}
		for i := 0; i < g; i++ {
			sizes = append(sizes, total*(i+1)/g-total*i/g)
		}
		return
	}
	var level []*Shape
	i := 0
	for _, c := range split(n, fill) {
		level = append(level, &Shape{vals: append([]KV(nil), m[i:i+c]...)})
		i += c
	}
	first := func(s *Shape) uint64 {
		for !s.leaf() {
			s = s.kids[0]
		}
		return s.vals[0].K
	}
	for len(level) > 1 {
		var up []*Shape
		i := 0
		per := fill + 1
		sizes := split(len(level), per)
		if len(level) <= 5 {
			sizes = []int{len(level)}
		}
		for _, c := range sizes {
			p := &Shape{depth: level[0].depth + 1}
			for _, k := range level[i : i+c] {
				if len(p.kids) > 0 {
					p.seps = append(p.seps, first(k))
				}
				p.kids = append(p.kids, k)
			}
			i += c
			up = append(up, p)
		}
		level = up
	}
	return level[0], m
}

// newPW builds the world: p = [lim, ntrees, base0, (base1), ops...]; lim -1: no cache.
func newPW(w *Worker, p []int64, reuse bool) (*PW, []int64, error) {
	x := &PW{w: w}
	plain := p[0] >= pgPlain
	if plain {
		p = append([]int64{p[0] - pgPlain - 1}, p[1:]...)
	}
	if p[0] >= 0 {
		l := pgLimits[p[0]]
		x.low, x.high = l[0], l[1]
		x.cache = sm.NewBPlusTreeCache(l[0], l[1])
	}
	n := int(p[1])
	for i := 0; i < n; i++ {
		b := &BW{w: w, order: 4, cfg: cfCB, st: newStore(reuse), cache: x.cache}
		b.st.plain = plain
		b.cb = &CB{b.st, codecs[0], false}
		t := &PT{BW: b, vals: 100}
		spec := pgBases[p[2+i]]
		for k := 0; plain && k < 8; k++ {
			t.univ = append(t.univ, KV{seqKey(k), 0})
		}
		if spec == nil {
			b.t = b.create()
			t.dirty = true
		} else {
			sh, m := pgShape(spec)
			l := writeShape(b.st, sh, 4, codecs[0])
			b.m, t.cm, t.c, t.hasC = m, m.clone(), l, true
			if plain {
				n := len(m)
				t.univ = nil
				for _, i := range []int{0, n / 2, n/2 - 1, n - 1, n / 4, n/4 + 1, 1, n - 2} {
					if i >= 0 && i < n {
						t.univ = append(t.univ, m[i])
					}
				}
			}
			var err error
			b.st.onGet = func(l Loc) { t.opened = append(t.opened, l) }
			b.t, err = b.open(l, x.cache)
			b.st.onGet = nil
			if err != nil {
				return nil, nil, err
			}
		}
		x.trees = append(x.trees, t)
		if err := x.drain(); err != nil {
			return nil, nil, err
		}
	}
	return x, p[2+n:], nil
}

func (x *PW) drain() error {
	if x.cache != nil {
		return x.w.drain()
	}
	return nil
}

// recoverable reopens the last completed flush from a copy of the storage as it is.
func (t *PT) recoverable() error {
	if !t.hasC || t.unrec {
		return nil
	}
	if t.sure != nil {
		// reopening is a function of the images it reads: the same images, the same outcome
		same := true
		for l, im := range t.sure {
			if b := t.st.objs[l]; b == nil || !bytes.Equal(b.copy, im) || !bytes.Equal(b.given, im) {
				same = false
				break
			}
		}
		if same {
			return nil
		}
	}
	st := newStore(false)
	st.objs = make(map[Loc]*blob, len(t.st.objs))
	for l, b := range t.st.objs {
		st.objs[l] = b
	}
	sure := map[Loc][]byte{}
	st.image = func(l Loc, b []byte) []byte { sure[l] = b; return b }
	y := &BW{w: t.w, order: t.order, st: st, cb: &CB{st, t.cb.c, false}, m: t.cm.clone()}
	var err error
	if y.t, err = y.open(t.c, nil); err != nil {
		return err
	}
	if err := checkLight(y.t, &y.m); err != nil {
		return err
	}
	if err := validate(y.t); err != nil {
		return err
	}
	if st.bad == nil {
		t.sure = sure
	}
	return st.bad
}

func (x *PW) hook(t *PT, on bool) {
	if !on {
		t.st.before, t.st.after = nil, nil
		return
	}
	h := func(when string) func(int, Loc) {
		return func(kind int, l Loc) {
			x.crashes++
			if x.crashErr != nil {
				return
			}
			if err := t.recoverable(); err != nil {
				x.crashErr = fmt.Errorf("crash %s %s at %v: the last completed flush (%v) is lost: %w", when, cbNames[kind], l, t.c, err)
			}
		}
	}
	t.st.before, t.st.after = h("before"), h("after")
}

// freshKey picks an absent key at a position: 0 before the first, 1 middle, 2 after the last.
func freshKey(m Model, pos int) (uint64, bool) {
	n := len(m)
	switch {
	case n == 0:
		return 1 << 40, true
	case pos == 0:
		if m[0].K < 2 {
			return 0, false
		}
		if m[0].K > 1<<30 {
			return m[0].K - 1<<30, true
		}
		return m[0].K / 2, true
	case pos == 2:
		return m[n-1].K + 1<<30, true
	}
	i := n / 2
	if i == 0 {
		return m[0].K / 2, m[0].K > 1
	}
	k := keyBetween(m[i-1].K, m[i].K)
	return k, k != m[i-1].K
}

// op executes one operation, with everything the reference predicts about its result.
func (x *PW) op(o int64) error {
	t := x.trees[o/100]
	if t.dead {
		return nil
	}
	code := int(o % 100)
	if x.crash {
		x.hook(t, true)
		defer x.hook(t, false)
	}
	puts := t.st.puts
	if err := x.op1(t, code); err != nil {
		return err
	}
	if x.noPuts && t.st.puts != puts && code != pFlush && code != pFlushP {
		return fmt.Errorf("%s wrote %d nodes", pNames[code], t.st.puts-puts)
	}
	if err := x.drain(); err != nil {
		return err
	}
	if x.crash && x.crashErr == nil {
		for _, y := range x.trees {
			if !y.dead {
				if err := y.recoverable(); err != nil {
					x.crashErr = fmt.Errorf("crash after %s: the last completed flush (%v) is lost: %w", pNames[code], y.c, err)
				}
			}
		}
	}
	if x.crashErr != nil {
		return x.crashErr
	}
	return x.bad()
}

func (x *PW) bad() error {
	for _, y := range x.trees {
		if y.st.bad != nil {
			return y.st.bad
		}
	}
	return nil
}

func (x *PW) op1(t *PT, code int) error {
	n := len(t.m)
	data := func(c int, a, v uint64) error {
		before := t.m.clone()
		if t.cb.c.noVals {
			v = 0
		}
		if err := exec(t.t, &t.m, c, a, v); err != nil {
			return err
		}
		if !before.equal(t.m) {
			t.dirty = true
		}
		return nil
	}
	call := func(f func() error) error {
		if err := safely(f); err != nil {
			return fmt.Errorf("%s: %w", pNames[code], err)
		}
		return nil
	}
	t.vals++
	if code >= kPut && code < kPut+kMax {
		return data(oPut, t.univ[code-kPut].K, t.univ[code-kPut].V)
	}
	if code >= kDel && code < kDel+kMax {
		return data(oDel, t.univ[code-kDel].K, 0)
	}
	switch code {
	case pPutF, pPutM, pPutL:
		k, ok := freshKey(t.m, code-pPutF)
		if !ok {
			return nil
		}
		return data(oPut, k, k%89)
	case pDelF, pDelM, pDelL:
		if n == 0 {
			return data(oDel, 5, 0)
		}
		return data(oDel, t.m[[]int{0, n / 2, n - 1}[code-pDelF]].K, 0)
	case kTogF, kTogM:
		k := t.univ[[]int{0, len(t.univ) / 3}[code-kTogF]]
		v := k.V
		if i, ok := t.m.find(k.K); ok && t.m[i].V == v {
			v++
		}
		return data(oPat, k.K, v)
	case pDelIM:
		return data(oDelI, uint64(n/2), 0)
	case pPatM:
		if n == 0 {
			return data(oPat, 5, 0)
		}
		return data(oPat, t.m[n/2].K, (t.m[n/2].V+1)%5)
	case pPatIL:
		if n == 0 {
			return data(oPatI, 0, 1)
		}
		return data(oPatI, uint64(n-1), (t.m[n-1].V+1)%5)
	case pGetF, pGetM, pGetL:
		if n == 0 {
			return data(oGet, 5, 0)
		}
		return data(oGet, t.m[[]int{0, n / 2, n - 1}[code-pGetF]].K, 0)
	case pGetIM:
		return data(oGetI, uint64(n/2), 0)
	case pBisM:
		k, _ := freshKey(t.m, 1)
		if err := data(oBisL, k, 0); err != nil {
			return err
		}
		return data(oBisR, k, 0)
	case pRej:
		if n > 0 {
			if err := data(oPut, t.m[n/2].K, 3); err != nil {
				return err
			}
		}
		k, _ := freshKey(t.m, 0)
		for _, c := range []int{oDel, oPat, oGet} {
			if err := data(c, k, 3); err != nil {
				return err
			}
		}
		for _, c := range []int{oDelI, oPatI, oGetI} {
			if err := data(c, uint64(n), 3); err != nil {
				return err
			}
		}
		return nil
	case pLen:
		return data(oLen, 0, 0)
	case pGetA, pDelA, pPatA:
		k, _ := freshKey(t.m, 1)
		return data([]int{oGet, oDel, oPat}[code-pGetA], k, 3)
	case pPutD:
		if n == 0 {
			return nil
		}
		return data(oPut, t.m[n/2].K, 3)
	case mPatAll, mPatSome, mPutMany, mDelMany, mDelRange, mGetAll, mDelAll:
		m := t.m.clone()
		each := func(c int, a, v uint64) error {
			if err := data(c, a, v); err != nil {
				return err
			}
			return x.drain()
		}
		for i := range m {
			var err error
			switch code {
			case mPatAll:
				err = each(oPat, m[i].K, (m[i].V+1)%5)
			case mPatSome:
				if i%5 == 2 {
					err = each(oPatI, uint64(i), (m[i].V+1)%5)
				}
			case mPutMany:
				if i > 0 {
					if k := keyBetween(m[i-1].K, m[i].K); k != m[i-1].K {
						err = each(oPut, k, uint64(i))
					}
				}
			case mDelMany:
				if i%2 == 0 {
					err = each(oDel, m[i].K, 0)
				}
			case mDelRange:
				if i < n/2 {
					err = each(oDelI, uint64(n/4), 0)
				}
			case mDelAll:
				err = each(oDelI, uint64(len(t.m)/2), 0)
			case mGetAll:
				err = each(oGet, m[i].K, 0)
			}
			if err != nil {
				return err
			}
		}
		return nil
	case mTIAll:
		for i := uint64(0); i < uint64(n); {
			t.dirty = true
			var nx uint64
			if err := call(func() (e error) { nx, e = t.t.TouchItem(i); return }); err != nil {
				return err
			}
			if nx <= i || nx > uint64(n) {
				return wrongf("TouchItem(%d) of %d items returned %d", i, n, nx)
			}
			i = nx
		}
		t.touched = t.touched || n > 0
		return nil
	case pFlush, pFlushP:
		l0, err := fetchLoc(t.t)
		if err != nil {
			return err
		}
		var l Loc
		puts := t.st.puts
		if err := call(func() (e error) { l.Num, l.Off, l.Len, e = t.t.Flush(code == pFlushP); return }); err != nil {
			return err
		}
		if x.noPuts && t.touched {
			s, _, err := decodeTree(t.st, l, t.cb.c)
			if err != nil {
				return err
			}
			if k := len(s.locs(nil)); t.st.puts-puts < k {
				return wrongf("the Flush after touching everything wrote %d of %d nodes", t.st.puts-puts, k)
			}
		}
		t.touched = false
		if !t.dirty && !t.maybe && l != l0 {
			return wrongf("Flush of an unmodified tree moved it from %v to %v", l0, l)
		}
		t.c, t.cm, t.hasC, t.dirty, t.unrec, t.maybe = l, t.m.clone(), true, false, false, false
		t.sure = nil
		t.loc = l
		return nil
	case pPurge:
		return call(func() error { return t.t.Purge(false) })
	case pPurgeT:
		err := safely(func() error { return t.t.Purge(true) })
		if t.dirty && err == nil {
			return wrongf("Purge(true) of a tree with unflushed modifications reported no error")
		}
		if _, isPanic := err.(panicErr); isPanic || (!t.dirty && !t.maybe && err != nil) {
			return fmt.Errorf("Purge(true): %w", err)
		}
		return nil
	case pTouch:
		t.dirty = true
		err := call(t.t.Touch)
		t.touched = t.touched || err == nil
		return err
	case pTI0, pTIM:
		i := uint64(0)
		if code == pTIM {
			i = uint64(n / 2)
		}
		if n > 0 {
			t.dirty = true
		}
		return call(func() error {
			nx, err := t.t.TouchItem(i)
			if err == nil && n > 0 && (nx <= i || nx > uint64(n)) {
				return wrongf("TouchItem(%d) of %d items returned %d", i, n, nx)
			}
			return err
		})
	case pPrune:
		if t.dirty || t.maybe {
			t.unrec = true
		}
		return call(t.t.Prune)
	case pLayout:
		_, err := fetchLayout(t.t)
		return err
	case pDim:
		d, err := fetchDims(t.t)
		if err == nil && (d.Items != uint64(n) || d.MaxKeysPerNode != 4 || d.MinKeysPerNode != 2) {
			return wrongf("FetchDimensionsReport says %+v for %d items", d, n)
		}
		return err
	case pVal:
		return validate(t.t)
	case pDump:
		return call(t.t.Dump)
	case pEvict:
		if x.cache == nil {
			return nil
		}
		x.cache.UpdateLimits(0, 0)
		if err := x.drain(); err != nil {
			return err
		}
		x.cache.UpdateLimits(x.low, x.high)
	case pLim00:
		x.limits(0, 0)
	case pLim12:
		x.limits(1, 2)
	case pLim24:
		x.limits(2, 4)
	case pLim14:
		x.limits(1, 4)
	case pLim04:
		x.limits(0, 4)
	case pLimBig:
		x.limits(limBig, limBig)
	case pDiscard:
		if err := call(t.t.Discard); err != nil {
			return err
		}
		t.dead = true
		if len(t.st.objs) != 0 && t.st.bad == nil {
			return wrongf("Discard left %d locations allocated: %v", len(t.st.objs), t.st.list())
		}
	}
	return nil
}

func (x *PW) limits(a, b uint64) {
	if x.cache != nil {
		x.low, x.high = a, b
		x.cache.UpdateLimits(a, b)
	}
}

func (s *Store) list() []Loc {
	var out []Loc
	for l := range s.objs {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].Off < out[j].Off || (out[i].Off == out[j].Off && out[i].Num < out[j].Num)
	})
	return out
}

func (x *PW) key() string {
	h := []any{}
	for _, t := range x.trees {
		if t.dead {
			h = append(h, 1)
			continue
		}
		h = append(h, t.t, t.m, t.dirty, t.hasC, t.c, t.cm, t.unrec)
		for _, l := range t.st.list() {
			h = append(h, l, t.st.objs[l].copy)
		}
	}
	if x.cache != nil {
		h = append(h, x.cache)
	}
	return fmt.Sprint(fingerprint(nil, h...))
}

// drained is a map that lets the cache evict after every call.
type drained struct {
	sm.BPlusTree
	x *PW
}

func (d drained) d() {
	if err := d.x.drain(); err != nil {
		panic(err)
	}
}

func (d drained) GetByKey(k sm.Key) (v sm.Value, ok bool, err error) {
	defer d.d()
	return d.BPlusTree.GetByKey(k)
}
func (d drained) GetByIndex(i int) (k sm.Key, v sm.Value, ok bool, err error) {
	defer d.d()
	return d.BPlusTree.GetByIndex(i)
}
func (d drained) BisectLeft(k sm.Key) (i int, ok bool, err error) {
	defer d.d()
	return d.BPlusTree.BisectLeft(k)
}
func (d drained) BisectRight(k sm.Key) (i int, ok bool, err error) {
	defer d.d()
	return d.BPlusTree.BisectRight(k)
}
func (d drained) Put(k sm.Key, v sm.Value) (ok bool, err error) {
	defer d.d()
	return d.BPlusTree.Put(k, v)
}

// ---- what is checked in a reached state, by property

// pgFinalContent (C05): nothing but the data operations has had an effect.
func pgFinalContent(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		if variant == 1 {
			if err := x.op1(t, pFlushP); err != nil {
				return err
			}
			if err := x.drain(); err != nil {
				return err
			}
		}
		if err := checkAll(drained{t.t, x}, &t.m); err != nil {
			return err
		}
		if err := validate(t.t); err != nil {
			return err
		}
		if err := x.drain(); err != nil {
			return err
		}
		if err := x.op1(t, pFlush); err != nil {
			return err
		}
		if err := x.drain(); err != nil {
			return err
		}
		y, err := t.fork(t.c, t.m)
		if err != nil {
			return err
		}
		if err := checkLight(y.t, &y.m); err != nil {
			return fmt.Errorf("reopened: %w", err)
		}
		if err := validate(y.t); err != nil {
			return fmt.Errorf("reopened: %w", err)
		}
		if err := checkLight(drained{t.t, x}, &t.m); err != nil {
			return err
		}
	}
	return x.bad()
}

func sameLayout(a sm.LayoutReport, b map[uint64]uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// pgFinalSpace (C07)
func pgFinalSpace(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		if variant == 1 { // discard from here
			if err := x.op1(t, pDiscard); err != nil {
				return err
			}
			if err := x.drain(); err != nil {
				return err
			}
			continue
		}
		rep, err := fetchLayout(t.t)
		if err != nil {
			return err
		}
		if err := x.drain(); err != nil {
			return err
		}
		if variant == 0 { // report against a prune right away
			wasDirty := t.dirty
			if err := x.op1(t, pPrune); err != nil {
				return err
			}
			if !sameLayout(rep, t.st.perObject()) {
				return fmt.Errorf("FetchLayoutReport says %v, after Prune (unflushed modifications: %v) %v are allocated", rep, wasDirty, t.st.perObject())
			}
			if err := checkLight(t.t, &t.m); err != nil {
				return err
			}
		}
		for i := 0; i < 2; i++ {
			if err := x.op1(t, pFlush+int64ToInt(i)); err != nil {
				return err
			}
			if err := x.drain(); err != nil {
				return err
			}
			if err := x.op1(t, pPrune); err != nil {
				return err
			}
			s, _, err := decodeTree(t.st, t.c, t.cb.c)
			if err != nil {
				return fmt.Errorf("after Flush and Prune: %w", err)
			}
			reach := s.locs(nil)
			if len(reach) != len(t.st.objs) {
				return fmt.Errorf("after Flush and Prune %v are allocated, %d of them reachable", t.st.list(), len(reach))
			}
			rep, err := fetchLayout(t.t)
			if err != nil {
				return err
			}
			if !sameLayout(rep, t.st.perObject()) {
				return fmt.Errorf("FetchLayoutReport after Flush and Prune says %v, allocated %v", rep, t.st.perObject())
			}
			if i == 0 { // modify and go round once more
				if err := x.op1(t, pPutM); err != nil {
					return err
				}
				if err := x.op1(t, pDelL); err != nil {
					return err
				}
			}
		}
		if err := x.op1(t, pDiscard); err != nil {
			return err
		}
		if err := x.drain(); err != nil {
			return err
		}
	}
	if x.cache != nil {
		if s := x.cache.Stats(); s.CleanLRUItems != 0 || s.DirtyLRUItems != 0 {
			return fmt.Errorf("after discarding every tree the cache still counts %d unmodified and %d modified nodes", s.CleanLRUItems, s.DirtyLRUItems)
		}
	}
	return x.bad()
}

func int64ToInt(i int) int { return i }

// pgFinalCrash (C06): images are immutable; then flush with crash checks.
func pgFinalCrash(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		for l, b := range t.st.objs {
			if !bytes.Equal(b.given, b.copy) {
				return fmt.Errorf("the image at %v was modified after it was written", l)
			}
		}
		x.hook(t, true)
		if err := x.op1(t, pFlush+variant); err != nil {
			return err
		}
		if x.crashErr != nil {
			return x.crashErr
		}
		if err := x.op1(t, pPrune); err != nil {
			return err
		}
		if err := x.drain(); err != nil {
			return err
		}
		x.hook(t, false)
		if x.crashErr != nil {
			return x.crashErr
		}
		if err := t.recoverable(); err != nil {
			return fmt.Errorf("after Flush and Prune: %w", err)
		}
	}
	return x.bad()
}

// pgFinalWrites (C12): a flush writes iff there is something to write.
func pgFinalWrites(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		puts := t.st.puts
		wasDirty := t.dirty
		if err := x.op1(t, pFlush); err != nil {
			return err
		}
		if !wasDirty && t.st.puts != puts {
			return fmt.Errorf("Flush without modifications wrote %d nodes", t.st.puts-puts)
		}
		puts = t.st.puts
		if err := x.op1(t, pFlush); err != nil {
			return err
		}
		if t.st.puts != puts {
			return fmt.Errorf("a second Flush wrote %d nodes", t.st.puts-puts)
		}
	}
	return x.bad()
}

// pgFinalStats (C17): the statistics against the nodes actually resident.
func pgFinalStats(x *PW, variant int) error {
	if x.cache == nil {
		return nil
	}
	if err := x.quiet(); err != nil {
		return err
	}
	s := x.cache.Stats()
	x.cache.UpdateLimits(limBig, limBig)
	if err := x.drain(); err != nil {
		return err
	}
	if s2 := x.cache.Stats(); s2.CleanLRUItems != s.CleanLRUItems || s2.DirtyLRUItems != s.DirtyLRUItems || s2.EvictLowLimit != limBig || s2.EvictHighLimit != limBig {
		return fmt.Errorf("raising the limits changed the statistics from %+v to %+v", *s, *s2)
	}
	puts, refetch, nodes := 0, 0, 0
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		p, g := t.st.puts, t.st.gets
		if err := x.op1(t, pFlush); err != nil {
			return err
		}
		puts += t.st.puts - p
		if t.st.gets != g {
			return fmt.Errorf("Flush fetched nodes")
		}
		if err := validate(t.t); err != nil {
			return err
		}
		refetch += t.st.gets - g
		sh, _, err := decodeTree(t.st, t.c, t.cb.c)
		if err != nil {
			return err
		}
		nodes += sh.nodes()
		if err := x.drain(); err != nil {
			return err
		}
	}
	if int(s.DirtyLRUItems) != puts {
		return fmt.Errorf("statistics counted %d modified nodes, flushing wrote %d", s.DirtyLRUItems, puts)
	}
	if res := nodes - refetch; int(s.CleanLRUItems+s.DirtyLRUItems) != res {
		return fmt.Errorf("statistics counted %d unmodified and %d modified nodes, resident were %d", s.CleanLRUItems, s.DirtyLRUItems, res)
	}
	if e := x.cache.Stats(); int(e.CleanLRUItems) != nodes || e.DirtyLRUItems != 0 {
		return fmt.Errorf("with all %d nodes resident and flushed the statistics count %d unmodified and %d modified", nodes, e.CleanLRUItems, e.DirtyLRUItems)
	}
	return x.bad()
}

// quiet checks the limits and the reported limits when nothing is running.
func (x *PW) quiet() error {
	s := x.cache.Stats()
	if s.EvictLowLimit != x.low || s.EvictHighLimit != x.high {
		return fmt.Errorf("limits are %d, %d but the statistics say %d, %d", x.low, x.high, s.EvictLowLimit, s.EvictHighLimit)
	}
	if t := s.CleanLRUItems + s.DirtyLRUItems; t > x.high && s.CleanLRUItems > 0 {
		return fmt.Errorf("%d unmodified and %d modified nodes are resident though the high limit is %d", s.CleanLRUItems, s.DirtyLRUItems, x.high)
	}
	return nil
}

func (x *PW) gets() (g int) {
	for _, t := range x.trees {
		g += t.st.gets
	}
	return
}

// statStep executes one operation and checks the counters around it.
func (x *PW) statStep(o int64, height int) error {
	t := x.trees[o/100]
	code := int(o % 100)
	if t.dead || x.cache == nil {
		return x.op(o)
	}
	shown, g, n := x.cache.Stats(), x.gets(), len(t.m)
	av := *shown
	a := &av
	if code >= pLim00 && code <= pLimBig || code >= pLim24 && code <= pLim04 {
		if err := x.op1(t, code); err != nil {
			return err
		}
		b := x.cache.Stats()
		if b.EvictHighLimit != x.high || b.EvictLowLimit != x.low {
			return fmt.Errorf("UpdateLimits(%d,%d) is not reported: %+v", x.low, x.high, *b)
		}
	} else if err := x.op1(t, code); err != nil {
		return err
	}
	b, dg := x.cache.Stats(), x.gets()-g
	over := b.CleanLRUItems+b.DirtyLRUItems > x.high && b.CleanLRUItems > 0
	if code == pEvict {
		over = false
	}
	if err := x.drain(); err != nil {
		return err
	}
	c := x.cache.Stats()
	if err := x.quiet(); err != nil {
		return fmt.Errorf("after %s: %w", pNames[code], err)
	}
	if *shown != av {
		return fmt.Errorf("%s altered the statistics returned before it from %+v to %+v", pNames[code], av, *shown)
	}
	*shown = sm.BPlusTreeCacheStats{EvictLowLimit: 77, EvictHighLimit: 78, CleanLRUItems: 79, DirtyLRUItems: 80, CacheHits: 81, CacheMisses: 82}
	tot := func(s *sm.BPlusTreeCacheStats) uint64 { return s.CleanLRUItems + s.DirtyLRUItems }
	if over && tot(c) > x.low && c.CleanLRUItems > 0 {
		return fmt.Errorf("after %s eviction stopped at %d nodes (low limit %d) with %d unmodified ones left", pNames[code], tot(c), x.low, c.CleanLRUItems)
	}
	if c.DirtyLRUItems != b.DirtyLRUItems {
		return fmt.Errorf("eviction after %s changed the number of modified nodes from %d to %d", pNames[code], b.DirtyLRUItems, c.DirtyLRUItems)
	}
	if code <= pPutD {
		dm, dh := int(b.CacheMisses-a.CacheMisses), int(b.CacheHits-a.CacheHits)
		if dm != dg {
			return fmt.Errorf("%s fetched %d nodes but counted %d misses", pNames[code], dg, dm)
		}
		want, atLeast := height, false
		switch code {
		case pDelF, pDelM, pDelL, pDelIM:
			atLeast = true
			if n == 0 {
				atLeast = false
				if code == pDelIM {
					want = 0
				}
			}
		case pBisM:
			want = 2 * height
		case pLen:
			want = 1
		case pRej:
			want = 3 * height
			if n > 0 {
				want += height
			}
		case pPutD:
			if n == 0 {
				want = 0
			}
		case pGetIM, pPatIL:
			if n == 0 {
				want = 0
			}
		case pPutF, pPutM, pPutL:
			if _, ok := freshKey(t.m, code-pPutF); !ok && n == len(t.m) {
				want = dm + dh
			}
		}
		if height > 0 && (dm+dh < want || (!atLeast && dm+dh != want)) {
			return fmt.Errorf("%s in a tree of height %d counted %d hits and %d misses, want %d visits", pNames[code], height, dh, dm, want)
		}
	}
	// nothing is evicted while the total stays within the high limit
	switch code {
	case pGetF, pGetM, pGetL, pGetIM, pBisM, pLen, pDim, pVal, pRej, pGetA, pDelA, pPatA, pPutD:
		if tot(a)+uint64(dg) <= x.high && tot(c) != tot(a)+uint64(dg) {
			return fmt.Errorf("%s: %d nodes were resident, %d were fetched, high limit %d, afterwards %d are resident", pNames[code], tot(a), dg, x.high, tot(c))
		}
	}
	return x.bad()
}

// pgRun executes the operations of p; only the last one under crash or statistics checks.
func pgRun(w *Worker, p []int64, mode int) (*PW, error) {
	x, ops, err := newPW(w, p, true)
	if err != nil {
		return nil, err
	}
	height := 0
	if (mode == 17 || mode == 18) && len(ops) > 0 {
		// the height of the tree the last operation works on
		y, _, err := newPW(w, p, true)
		if err != nil {
			return nil, err
		}
		for _, o := range ops[:len(ops)-1] {
			if err := y.op(o); err != nil {
				return nil, err
			}
		}
		t := y.trees[ops[len(ops)-1]/100]
		if !t.dead {
			if err := y.op1(t, pFlush); err != nil {
				return nil, err
			}
			s, _, err := decodeTree(t.st, t.c, t.cb.c)
			if err != nil {
				return nil, err
			}
			height = s.depth + 1
		}
		w.q.Reset()
	}
	x.noPuts = mode == 12
	if mode == 18 {
		for _, t := range x.trees {
			t.watch()
		}
	}
	for i, o := range ops {
		last := i == len(ops)-1
		x.crash = mode == 6 && last
		if mode == 17 && last {
			err = x.statStep(o, height)
		} else if mode == 18 {
			h := 0
			if last {
				h = height
			}
			err = x.residStep(o, h)
		} else {
			err = x.op(o)
		}
		if err != nil {
			return nil, fmt.Errorf("operation %d (%s): %w", i, pNames[int(o%100)], err)
		}
	}
	x.crash = false
	return x, nil
}

// pgFinalShape (C03): whatever was flushed, released and fetched again in between, the
// nodes are as full as promised, and the dimensions report states the truth.
func pgFinalShape(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		before, err := fetchDims(t.t)
		if err != nil {
			return err
		}
		f := int64(pFlush)
		if variant > 0 {
			f = pFlushP
		}
		if err := x.op1(t, int(f)); err != nil {
			return err
		}
		if variant == 2 { // grow and shrink it once more from storage
			for _, o := range []int{pPutL, pDelF, pDelF, pDelM, pFlush} {
				if err := x.op1(t, o); err != nil {
					return err
				}
			}
		}
		s, _, err := decodeTree(t.st, t.c, t.cb.c)
		if err != nil {
			return err
		}
		if err := checkShape(s, 4); err != nil {
			return fmt.Errorf("%w (%s)", err, s.canon())
		}
		want := sm.DimensionsReport{MinKeysPerNode: 2, MaxKeysPerNode: 4, Items: uint64(len(t.m)), Height: uint64(s.depth + 1)}
		if variant < 2 && before != want {
			return fmt.Errorf("FetchDimensionsReport said %+v, want %+v", before, want)
		}
		if err := checkDims(t.t, 4, len(t.m), s.depth+1); err != nil {
			return err
		}
	}
	return x.bad()
}

// pgFinalReopen (C04): what is flushed here is found after reopening, by a handle
// with and one without a cache, and again after a modification of the reopened tree.
func pgFinalReopen(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		if err := x.op1(t, pFlush+variant); err != nil {
			return err
		}
		if l, err := fetchLoc(t.t); err != nil || l != t.c {
			return fmt.Errorf("Flush returned %v, FetchLocation reports %v (%v)", t.c, l, err)
		}
		if err := x.drain(); err != nil {
			return err
		}
		for _, cached := range []bool{false, true} {
			y, err := t.fork(t.c, t.m)
			if err != nil {
				return err
			}
			if cached {
				y.cache = sm.NewBPlusTreeCache(0, 1)
				if y.t, err = y.open(t.c, y.cache); err != nil {
					return err
				}
			}
			z := &PW{w: x.w, trees: []*PT{{BW: y, vals: 500}}, cache: y.cache}
			if err := checkLight(drained{y.t, z}, &y.m); err != nil {
				return fmt.Errorf("reopened: %w", err)
			}
			if err := validate(y.t); err != nil {
				return fmt.Errorf("reopened: %w", err)
			}
			for _, o := range []int64{pPatM, pDelF, pPutL, pFlush} {
				if err := z.op(o); err != nil {
					return fmt.Errorf("reopened: %w", err)
				}
			}
			u, err := y.fork(z.trees[0].c, y.m)
			if err != nil {
				return err
			}
			if err := checkLight(u.t, &u.m); err != nil {
				return fmt.Errorf("reopened, modified, flushed and reopened again: %w", err)
			}
			if err := validate(u.t); err != nil {
				return fmt.Errorf("reopened, modified, flushed and reopened again: %w", err)
			}
		}
		if err := checkLight(drained{t.t, x}, &t.m); err != nil {
			return err
		}
	}
	return x.bad()
}

var pgModes = map[int]struct {
	final    func(x *PW, variant int) error
	variants int
}{
	0:  {func(x *PW, variant int) error { return x.bad() }, 1},
	3:  {pgFinalShape, 3},
	4:  {pgFinalReopen, 2},
	5:  {pgFinalContent, 2},
	6:  {pgFinalCrash, 2},
	7:  {pgFinalSpace, 3},
	11: {pgFinalFormat, 2},
	12: {pgFinalWrites, 1},
	17: {pgFinalStats, 1},
	18: {pgFinalResid, 2},
}

func pgCase(mode int) func(w *Worker, p []int64) error {
	return func(w *Worker, p []int64) error {
		m := pgModes[mode]
		for v := 0; v < m.variants; v++ {
			x, err := pgRun(w, p, mode)
			if err != nil {
				return err
			}
			if err := m.final(x, v); err != nil {
				return fmt.Errorf("then (variant %d): %w", v, err)
			}
			w.q.Reset()
		}
		return nil
	}
}

func pgDescribe(p []int64) string {
	n := int(p[1])
	s := "no cache"
	lim := p[0]
	if lim >= pgPlain {
		lim -= pgPlain + 1
	}
	if lim >= 0 {
		s = fmt.Sprintf("cache limits %v", pgLimits[lim])
	}
	for i := 0; i < n; i++ {
		s += fmt.Sprintf(", tree %d: %v", i, pgBases[p[2+i]])
	}
	s += ": "
	for _, o := range p[2+n:] {
		if n > 1 {
			s += fmt.Sprintf("t%d.", o/100)
		}
		s += pNames[int(o%100)] + "; "
	}
	return s
}

var pgData = []int64{pPutF, pPutM, pPutL, pDelF, pDelM, pDelL, pDelIM, pPatM, pPatIL, pGetF, pGetL, pGetIM, pBisM, pRej}
var pgPaging = []int64{pFlush, pFlushP, pPurge, pPurgeT, pTouch, pTIM, pPrune, pLayout, pDim, pVal, pDump, pEvict}

// pgJob is one exploration: all sequences of the alphabet up to the depth from one
// initial world.
type pgJob struct {
	lim      int64
	bases    []int64
	alphabet []int64
	depth    int
}

// explorePaging walks all sequences of every job, pruning repeated states.
func explorePaging(r *Run, mode int, jobs []pgJob) {
	kind := fmt.Sprintf("paging%d", mode)
	var roots []bfsState
	for i, j := range jobs {
		roots = append(roots, bfsState{append([]int64{int64(i), j.lim, int64(len(j.bases))}, j.bases...), fmt.Sprint(i)})
	}
	r.part("paging: initial worlds", int64(len(jobs)))
	r.bfs("paging", roots, 1<<30, 1, func(wk *Worker, s bfsState, emit func([]int64, string, string)) {
		j := jobs[s.hist[0]]
		ops := len(s.hist) - 3 - len(j.bases)
		if ops == 0 {
			if !wk.do(kind, s.hist[1:]) {
				return
			}
		}
		for _, o := range j.alphabet {
			if r.expired() {
				return
			}
			h := append(append(make([]int64, 0, len(s.hist)+1), s.hist...), o)
			r.trans.Add(1)
			if !wk.do(kind, h[1:]) {
				return
			}
			if ops+1 >= j.depth {
				continue
			}
			key := ""
			wk.begin(kind, h[1:])
			err := safely(func() error {
				x, err := pgRun(wk, h[1:], 0)
				if err == nil {
					key = fmt.Sprint(h[0], ":", x.key())
				}
				return err
			})
			if err != nil {
				r.violate(Case{kind, h[1:]}, err)
				return
			}
			emit(h, key, "")
		}
	})
}

var pgC12Jobs, pgC04Jobs, pgC03Jobs func(r *Run) []pgJob

func init() {
	for m := range pgModes {
		k := fmt.Sprintf("paging%d", m)
		kinds[k] = pgCase(m)
		describe[k] = pgDescribe
	}
	for _, p := range []string{"C05", "C06", "C07", "C17", "C18"} {
		levels[p] = "model_checking"
		assumptions[p] = []string{"callbacks satisfy their contracts", "background eviction runs between operations here (bounded interleavings are explored by a second part, and by C16)"}
	}
	without := func(a []int64, xs ...int64) (out []int64) {
	next:
		for _, v := range a {
			for _, x := range xs {
				if v == x {
					continue next
				}
			}
			out = append(out, v)
		}
		return
	}
	_ = without
	on := func(t int64, a ...int64) (out []int64) {
		for _, v := range a {
			out = append(out, 100*t+v)
		}
		return
	}
	cat := func(xs ...[]int64) (out []int64) {
		for _, x := range xs {
			out = append(out, x...)
		}
		return
	}
	std := func(r *Run, alphabet []int64, lims []int64, depthQ, depthT int) (jobs []pgJob) {
		for _, b := range []int64{0, 1, 2, 8, 3, 4, 5, 6, 7, 9, 10} {
			for _, l := range lims {
				jobs = append(jobs, pgJob{l, []int64{b}, alphabet, pickTier(r, depthQ, depthT)})
			}
		}
		return
	}
	two := func(r *Run, lims []int64, depthQ, depthT int, extra ...int64) (jobs []pgJob) {
		a := []int64{pPutM, pDelM, pGetF, pGetL, pFlush, pFlushP, pPurge, pTouch}
		al := cat(on(0, a...), on(1, a...), on(1, pDiscard), extra)
		for _, l := range lims {
			jobs = append(jobs, pgJob{l, []int64{3, 8}, al, pickTier(r, depthQ, depthT)})
		}
		return
	}
	large := func(r *Run, lims []int64) (jobs []pgJob) {
		al := []int64{mPatAll, mPatSome, mPutMany, mDelMany, mDelRange, mDelAll, mTIAll, mGetAll, pFlush, pFlushP, pPurge, pTouch, pPrune, pEvict}
		for _, b := range []int64{11, 12, 13} {
			for _, l := range lims {
				jobs = append(jobs, pgJob{l, []int64{b}, al, pickTier(r, 2, 3)})
			}
		}
		return
	}
	pgC12Jobs = func(r *Run) []pgJob {
		al := []int64{pPutF, pPutM, pDelF, pDelM, pDelL, pPatM, pGetL, pBisM, pRej, pFlush, pFlushP, pPurge, pPurgeT, pTouch, pTIM, mTIAll, pPrune, pLayout, pDim, pVal, pDump, pEvict}
		return append(std(r, al, []int64{-1, 0, 2}, 3, 4), large(r, []int64{-1, 2})...)
	}
	pgC03Jobs = func(r *Run) []pgJob {
		al := []int64{pPutF, pPutM, pPutL, pDelF, pDelM, pDelL, pDelIM, pPatM, pGetM, pFlush, pFlushP, pPurge, pTouch, pTIM, pPrune, pEvict, pDim}
		return append(std(r, al, []int64{-1, 1, 2}, 3, 4), large(r, []int64{-1, 2})...)
	}
	pgC04Jobs = func(r *Run) []pgJob {
		al := []int64{pPutF, pPutM, pPutL, pDelF, pDelM, pDelL, pPatM, pPatIL, pGetL, pFlush, pFlushP, pPurge, pTouch, pTIM, pPrune, pEvict}
		return append(std(r, al, []int64{-1, 2}, 3, 4), large(r, []int64{-1, 2})...)
	}
	checks["C05"] = func(r *Run) {
		al := cat(pgData, pgPaging)
		pgClosures(r, 5)
		explorePaging(r, 5, append(std(r, al, []int64{-1, 0, 1, 2}, 3, 4), append(two(r, []int64{1, 2, 3}, 4, 5), large(r, []int64{-1, 2})...)...))
		r.sample("%s", pgDescribe([]int64{2, 1, 5, pDelM, pFlush, pGetF, pTouch}))
	}
	checks["C06"] = func(r *Run) {
		al := []int64{pPutF, pPutM, pPutL, pDelF, pDelM, pDelL, pPatM, pGetL, pFlush, pFlushP, pPurge, pPurgeT, pTouch, pTIM, pPrune, pLayout, pVal, pEvict}
		pgClosures(r, 6)
		explorePaging(r, 6, append(std(r, al, []int64{-1, 1, 2}, 4, 5), large(r, []int64{-1, 2})...))
		r.sample("%s", pgDescribe([]int64{2, 1, 5, pDelM, pFlush, pGetF, pTouch}))
	}
	checks["C07"] = func(r *Run) {
		al := []int64{pPutF, pPutM, pPutL, pDelF, pDelM, pDelL, pPatM, pGetL, pFlush, pFlushP, pPurge, pTouch, pTIM, pPurgeT, pPrune, pLayout, pVal, pEvict}
		pgClosures(r, 7)
		explorePaging(r, 7, append(std(r, al, []int64{-1, 1, 2}, 4, 5), append(two(r, []int64{1, 2}, 4, 5, pPrune), large(r, []int64{-1, 2})...)...))
		r.sample("%s", pgDescribe([]int64{2, 1, 5, pDelM, pFlush, pPrune, pTouch}))
	}
	checks["C18"] = func(r *Run) {
		al := cat(without(pgData, pRej), []int64{pLen, pGetA, pDelA, pPatA, pPutD}, without(pgPaging, pEvict))
		pgClosures(r, 18)
		explorePaging(r, 18, append(std(r, al, []int64{-1, 0}, 4, 5), append(two(r, []int64{0}, 4, 5, pLayout, pTIM), large(r, []int64{-1})...)...))
		r.sample("%s", pgDescribe([]int64{2, 1, 5, pDelM, pFlush, pGetF, pTouch}))
	}
	checks["C17"] = func(r *Run) {
		al := cat(pgData, []int64{pLen, pGetA, pDelA, pPatA, pPutD}, pgPaging, []int64{pLim00, pLim12, pLim24, pLim14, pLimBig})
		pgClosures(r, 17)
		explorePaging(r, 17, append(std(r, al, []int64{0, 1, 2, 3, 4}, 3, 4), append(two(r, []int64{0, 2, 3, 4}, 4, 5, pLim12, pLim24), large(r, []int64{0, 2, 5})...)...))
		exploreLRU(r, []int64{10}, []int{5}, false, pickTier(r, 4, 5))
		exploreLRU(r, []int64{3}, []int{3}, true, pickTier(r, 4, 5))
		exploreLRU(r, []int64{5}, []int{6}, false, pickTier(r, 4, 5))
		exploreLRU(r, []int64{3, 8}, []int{3, 2}, false, pickTier(r, 4, 5))
		exploreLRU(r, []int64{3, 8}, []int{3, 2}, true, pickTier(r, 3, 4))
		r.sample("%s", pgDescribe([]int64{2, 1, 5, pDelM, pFlush, pGetF, pTouch}))
	}
}
