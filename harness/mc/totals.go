package main

import (
	"fmt"

	sm "github.com/NVIDIA/sortedmap"
)

// Trees whose stored totals are far beyond what could be built item by item: one path of
// real nodes, and references to nodes elsewhere that state huge totals, lengths and
// locations (C11, and positions in C02's sense).

type farCB struct {
	*CB
	far map[Loc]bool
	hit []Loc
}

func (c *farCB) GetNode(num, off, n uint64) ([]byte, error) {
	l := Loc{num, off, n}
	if c.far[l] {
		c.hit = append(c.hit, l)
		return nil, errFault
	}
	return c.CB.GetNode(num, off, n)
}

var farTotals = []uint64{2, 1 << 16, 1 << 31, 1 << 32, 1<<32 + 5, 1<<40 + 7, 1 << 58}

type farChild struct {
	loc   Loc
	start uint64 // first index
	n     uint64
}

// totals p = [children per node, position of the real child, first total, real levels above the leaf, residency]
func caseTotals(w *Worker, p []int64) error {
	k, j, first, levels := int(p[0]), int(p[1]), int(p[2]), int(p[3])
	st := newStore(false)
	far := map[Loc]bool{}
	cb := &farCB{CB: &CB{st, codecs[0], false}, far: far}
	var fars []farChild
	nf := uint64(0)
	var keys []uint64
	var leafStart uint64
	enc := func(r *rawNode) (Loc, uint64) {
		by := encodeNode(r, codecs[0])
		num, off, _ := st.put(by)
		return Loc{num, off, uint64(len(by))}, r.items
	}
	var build func(level int, lo, hi, base uint64) (Loc, uint64)
	build = func(level int, lo, hi, base uint64) (Loc, uint64) {
		if level < 0 {
			r := &rawNode{leaf: true, items: 3}
			for i := uint64(1); i <= 3; i++ {
				keys = append(keys, lo+10*i)
				r.vals = append(r.vals, KV{lo + 10*i, i})
			}
			leafStart = base
			return enc(r)
		}
		r := &rawNode{root: level == levels, cap: 4}
		step := (hi - lo) / uint64(k)
		for i := 0; i < k; i++ {
			if i > 0 {
				r.seps = append(r.seps, lo+step*uint64(i))
			}
			var l Loc
			var n uint64
			if i == j {
				l, n = build(level-1, lo+step*uint64(i), lo+step*uint64(i+1), base)
			} else {
				n = farTotals[(first+i+level)%len(farTotals)]
				nf++
				l = Loc{1<<63 + nf, ^uint64(0) - nf<<20, 1<<62 + nf}
				if nf%2 == 0 {
					l = Loc{nf, 1<<40 + nf, 25}
				}
				far[l] = true
				fars = append(fars, farChild{l, base, n})
			}
			r.refs = append(r.refs, rawRef{l.Num, l.Off, l.Len, n})
			r.items += n
			base += n
		}
		return enc(r)
	}
	root, total := build(levels, 0, 1<<60, 0)
	var cache sm.BPlusTreeCache
	if p[4] == 2 {
		cache = sm.NewBPlusTreeCache(limBig, limBig)
	}
	return safely(func() error {
		t, err := sm.OldBPlusTree(root.Num, root.Off, root.Len, cmpU64, cb, cache)
		if err != nil {
			return fmt.Errorf("OldBPlusTree of a tree of %d items: %w", total, err)
		}
		release := func() error {
			if p[4] == 1 {
				return t.Purge(false)
			}
			return nil
		}
		length := func() error {
			if err := release(); err != nil {
				return err
			}
			if n, err := t.Len(); err != nil || uint64(n) != total {
				return fmt.Errorf("Len = %d, %v; the root states %d", n, err, total)
			}
			for _, i := range []uint64{total, total + 1} {
				if _, _, ok, err := t.GetByIndex(int(i)); err != nil || ok {
					return fmt.Errorf("GetByIndex(%d) of %d items = %v, %v", i, total, ok, err)
				}
			}
			return nil
		}
		visit := func() error {
			for _, f := range fars {
				for _, i := range []uint64{f.start, f.start + f.n/2, f.start + f.n - 1} {
					if err := release(); err != nil {
						return err
					}
					cb.hit = nil
					_, _, ok, err := t.GetByIndex(int(i))
					if err == nil || ok || len(cb.hit) != 1 || cb.hit[0] != f.loc {
						return fmt.Errorf("GetByIndex(%d) = %v, %v, fetching %v; items %d to %d are in %v", i, ok, err, cb.hit, f.start, f.start+f.n-1, f.loc)
					}
				}
			}
			for n, key := range keys {
				if err := release(); err != nil {
					return err
				}
				i := int(leafStart) + n
				if g, _, ok, err := t.GetByIndex(i); err != nil || !ok || g != any(key) {
					return fmt.Errorf("GetByIndex(%d) = %v, %v, %v, want key %d", i, g, ok, err, key)
				}
				if g, ok, err := t.BisectLeft(key); err != nil || !ok || g != i {
					return fmt.Errorf("BisectLeft(%d) = %d, %v, %v, want %d", key, g, ok, err, i)
				}
				if g, ok, err := t.BisectRight(key); err != nil || !ok || g != i {
					return fmt.Errorf("BisectRight(%d) = %d, %v, %v, want %d", key, g, ok, err, i)
				}
				if g, ok, err := t.BisectLeft(key + 1); err != nil || ok || g != i {
					return fmt.Errorf("BisectLeft(%d) = %d, %v, %v, want %d", key+1, g, ok, err, i)
				}
				if g, ok, err := t.BisectRight(key + 1); err != nil || ok || g != i+1 {
					return fmt.Errorf("BisectRight(%d) = %d, %v, %v, want %d", key+1, g, ok, err, i+1)
				}
				if ok, err := t.PatchByIndex(i, uint64(70+n)); err != nil || !ok {
					return fmt.Errorf("PatchByIndex(%d) = %v, %v", i, ok, err)
				}
				if v, ok, err := t.GetByKey(key); err != nil || !ok || v != any(uint64(70+n)) {
					return fmt.Errorf("GetByKey(%d) = %v, %v, %v after PatchByIndex(%d)", key, v, ok, err, i)
				}
			}
			next, err := t.TouchItem(leafStart + 1)
			if want := leafStart + uint64(len(keys)); err != nil || next != want {
				return fmt.Errorf("TouchItem(%d) = %d, %v, want %d", leafStart+1, next, err, want)
			}
			if j == 0 {
				d, err := t.FetchDimensionsReport()
				if err != nil || d.Items != total || d.Height != uint64(levels+2) {
					return fmt.Errorf("dimensions %+v, %v; %d items in %d levels", d, err, total, levels+2)
				}
			}
			return nil
		}
		flush := func() error {
			n, o, l, err := t.Flush(p[4] == 1)
			if err != nil {
				return fmt.Errorf("Flush: %w", err)
			}
			// the images along the path
			loc := Loc{n, o, l}
			var want = total
			for level := levels; ; level-- {
				b, err := st.get(loc)
				if err != nil {
					return err
				}
				r, err := decodeNode(b, codecs[0])
				if err != nil {
					return fmt.Errorf("image at %v: %w", loc, err)
				}
				if r.items != want {
					return fmt.Errorf("the image at %v states %d items, there are %d", loc, r.items, want)
				}
				if level < 0 {
					if len(r.vals) != len(keys) {
						return fmt.Errorf("the leaf holds %d items, want %d", len(r.vals), len(keys))
					}
					return st.bad
				}
				if r.root != (level == levels) || (r.root && r.cap != 4) || len(r.refs) != k {
					return fmt.Errorf("image at %v: root %v, capacity %d, %d children", loc, r.root, r.cap, len(r.refs))
				}
				for i, f := range r.refs {
					l := Loc{f.num, f.off, f.length}
					if i == j {
						loc, want = l, f.items
						continue
					}
					ok := false
					for _, c := range fars {
						ok = ok || c.loc == l && c.n == f.items
					}
					if !ok {
						return fmt.Errorf("image of level %d: reference %d states %d items at %v, which is not that of any child", level, i, f.items, l)
					}
				}
			}
		}
		change := func(d int64) {
			total = uint64(int64(total) + d)
			for i := range fars {
				if fars[i].start > leafStart {
					fars[i].start = uint64(int64(fars[i].start) + d)
				}
			}
		}
		all := func() error {
			if err := length(); err != nil {
				return err
			}
			if err := visit(); err != nil {
				return err
			}
			if err := flush(); err != nil {
				return err
			}
			return nil
		}
		if err := all(); err != nil {
			return err
		}
		// one more
		if ok, err := t.Put(keys[0]+5, uint64(1)); err != nil || !ok {
			return fmt.Errorf("Put = %v, %v", ok, err)
		}
		keys = append([]uint64{keys[0], keys[0] + 5}, keys[1:]...)
		change(1)
		if err := all(); err != nil {
			return fmt.Errorf("after Put: %w", err)
		}
		// two less
		for _, byIndex := range []bool{true, false} {
			var ok bool
			var err error
			if byIndex {
				ok, err = t.DeleteByIndex(int(leafStart) + 1)
			} else {
				ok, err = t.DeleteByKey(keys[1])
			}
			if err != nil || !ok {
				return fmt.Errorf("Delete (by index: %v) = %v, %v", byIndex, ok, err)
			}
			keys = append([]uint64{keys[0]}, keys[2:]...)
			change(-1)
			if err := all(); err != nil {
				return fmt.Errorf("after Delete: %w", err)
			}
		}
		return nil
	})
}

func exploreTotals(r *Run) {
	var cs [][]int64
	for k := int64(2); k <= 5; k++ {
		for j := int64(0); j < k; j++ {
			for first := range farTotals {
				for levels := int64(0); levels < 3; levels++ {
					if k < 3 && levels > 0 {
						continue
					}
					for res := int64(0); res < 3; res++ {
						cs = append(cs, []int64{k, j, int64(first), levels, res})
					}
				}
			}
		}
	}
	r.each(len(cs), func(w *Worker, i int) {
		r.trans.Add(20)
		if w.do("totals", cs[i]) {
			r.nontriv.Add(1)
		}
	})
	r.part("trees with huge stated totals", int64(len(cs)))
}

func init() { kinds["totals"] = caseTotals }
