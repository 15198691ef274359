package main

import (
	"fmt"

	sm "github.com/NVIDIA/sortedmap"
)

// Recency order of evictions: every sequence of accesses to the leaves of one or two
// trees sharing a cache, then every pair of limits; the reference keeps its own list.

type lruNode struct {
	tree   int
	shape  *Shape
	parent *lruNode
	res    bool
	dirty  bool
	key    uint64
	idx    int
}

type lruRef struct {
	nodes []*lruNode // all of them
	list  []*lruNode // resident, least recently used first
	leafs [][]*lruNode
}

func (f *lruRef) add(tree int, s *Shape, parent *lruNode, idx *int) {
	n := &lruNode{tree: tree, shape: s, parent: parent}
	f.nodes = append(f.nodes, n)
	if s.leaf() {
		n.key, n.idx = s.vals[0].K, *idx
		*idx += len(s.vals)
		f.leafs[tree] = append(f.leafs[tree], n)
	}
	for _, k := range s.kids {
		f.add(tree, k, n, idx)
	}
}

func (f *lruRef) drop(n *lruNode) {
	n.res = false
	for i, x := range f.list {
		if x == n {
			f.list = append(f.list[:i], f.list[i+1:]...)
			return
		}
	}
}

func (f *lruRef) use(n *lruNode) {
	f.drop(n)
	n.res = true
	f.list = append(f.list, n)
}

// visit uses the nodes from the root down to n and tells how many had to be fetched.
func (f *lruRef) visit(n *lruNode, dirty bool) (fetched int) {
	if n.parent != nil {
		fetched = f.visit(n.parent, dirty)
	}
	if !n.res {
		fetched++
	}
	f.use(n)
	n.dirty = n.dirty || dirty
	return
}

func (f *lruRef) under(n, a *lruNode) bool {
	for ; n != nil; n = n.parent {
		if n == a {
			return true
		}
	}
	return false
}

func (f *lruRef) evict(low, high int) {
	if len(f.list) <= high {
		return
	}
	for len(f.list) > low {
		var v *lruNode
		for _, n := range f.list {
			if !n.dirty {
				v = n
				break
			}
		}
		if v == nil {
			return
		}
		for _, n := range f.nodes {
			if n.res && f.under(n, v) {
				f.drop(n)
			}
		}
	}
}

func lruBuild(w *Worker, p []int64) (trees []*BW, cache sm.BPlusTreeCache, f *lruRef, rest []int64, err error) {
	cache = sm.NewBPlusTreeCache(limBig, limBig)
	nb := int(p[0])
	f = &lruRef{leafs: make([][]*lruNode, nb)}
	for i := 0; i < nb; i++ {
		b := &BW{w: w, order: 4, cfg: cfCB, st: newStore(false), cache: cache}
		b.cb = &CB{b.st, codecs[0], false}
		sh, m := pgShape(pgBases[p[1+i]])
		b.m = m
		l := writeShape(b.st, sh, 4, codecs[0])
		if b.t, err = b.open(l, cache); err != nil {
			return
		}
		trees = append(trees, b)
		x := 0
		at := len(f.nodes)
		f.add(i, sh, nil, &x)
		if b.st.gets > 0 {
			f.use(f.nodes[at])
		}
	}
	return trees, cache, f, p[1+nb:], nil
}

// lru p=[ntrees, bases..., variant, accesses...]: access = 1000*patch + 100*tree + leaf.
func caseLRU(w *Worker, p []int64) error {
	total := -1
	for low := 0; total < 0 || low <= total; low++ {
		for hi := 0; hi < 2; hi++ {
			trees, cache, f, rest, err := lruBuild(w, p)
			if err != nil {
				return err
			}
			variant, acc := int(rest[0]), rest[1:]
			for i, a := range acc {
				b := trees[a%1000/100]
				n := f.leafs[a%1000/100][a%100]
				patch := a >= 1000
				g, s := b.st.gets, cache.Stats()
				op, arg := []int{oGet, oGetI, oBisL, oBisR}[(variant+i)%4], n.key
				if op == oGetI {
					arg = uint64(n.idx)
				}
				if patch {
					op, arg = oPat, n.key
				}
				if err := exec(b.t, &b.m, op, arg, uint64(i)); err != nil {
					return err
				}
				want := f.visit(n, patch)
				e := cache.Stats()
				if b.st.gets-g != want || int(e.CacheMisses-s.CacheMisses) != want {
					return fmt.Errorf("access %d (%s) fetched %d nodes and counted %d misses, want %d", i, opStr(op, arg, 0), b.st.gets-g, e.CacheMisses-s.CacheMisses, want)
				}
			}
			total = len(f.list)
			high := low
			if hi == 1 {
				high = total
			}
			if w.q.Pending() != 0 {
				return fmt.Errorf("an eviction was started below the high limit")
			}
			cache.UpdateLimits(uint64(low), uint64(high))
			if err := w.drain(); err != nil {
				return err
			}
			f.evict(low, high)
			s := cache.Stats()
			dirty := 0
			for _, n := range f.list {
				if n.dirty {
					dirty++
				}
			}
			if int(s.DirtyLRUItems) != dirty || int(s.CleanLRUItems) != len(f.list)-dirty {
				return fmt.Errorf("limits %d,%d on %d nodes left %d unmodified and %d modified, want %d and %d", low, high, total, s.CleanLRUItems, s.DirtyLRUItems, len(f.list)-dirty, dirty)
			}
			cache.UpdateLimits(limBig, limBig)
			if err := w.drain(); err != nil {
				return err
			}
			for t, ls := range f.leafs {
				b := trees[t]
				for i, n := range ls {
					g := b.st.gets
					if err := exec(b.t, &b.m, oGet, n.key, 0); err != nil {
						return err
					}
					was := n.res
					want := f.visit(n, false)
					if got := b.st.gets - g; got != want {
						return fmt.Errorf("with limits %d,%d on %d nodes the wrong nodes were evicted: leaf %d of tree %d (should be resident: %v) took %d fetches, want %d", low, high, total, i, t, was, got, want)
					}
				}
				if b.st.bad != nil {
					return b.st.bad
				}
			}
			w.q.Reset()
		}
	}
	return nil
}

// exploreLRU executes every access sequence of the given length.
func exploreLRU(r *Run, bases []int64, leafs []int, patch bool, length int) {
	var alph []int64
	for t, n := range leafs {
		for i := 0; i < n; i++ {
			alph = append(alph, int64(100*t+i))
			if patch {
				alph = append(alph, int64(1000+100*t+i))
			}
		}
	}
	n := 4
	for i := 0; i < length; i++ {
		n *= len(alph)
	}
	head := append([]int64{int64(len(bases))}, bases...)
	r.each(n, func(w *Worker, i int) {
		p := append(append([]int64(nil), head...), int64(i%4))
		x := i / 4
		for j := 0; j < length; j++ {
			p = append(p, alph[x%len(alph)])
			x /= len(alph)
		}
		r.trans.Add(1)
		w.do("lru", p)
	})
	r.part(fmt.Sprintf("access sequences over trees %v of length %d", bases, length), int64(n))
}

func init() {
	kinds["lru"] = caseLRU
}
