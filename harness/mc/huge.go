package main

import (
	"fmt"

	sm "github.com/NVIDIA/sortedmap"
)

// Very large maps (beyond 16-bit counts), built and taken apart systematically.

// perm lists 0..n-1 in the order of a pattern: ascending, descending, a fixed stride,
// from the middle outwards.
func perm(pat, n int) []int {
	out := make([]int, 0, n)
	switch pat {
	case 0:
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
	case 1:
		for i := n - 1; i >= 0; i-- {
			out = append(out, i)
		}
	case 2:
		s := n*5/13 + 1
		for gcd(s, n) != 1 {
			s++
		}
		for i, x := 0, 0; i < n; i++ {
			out = append(out, x)
			x = (x + s) % n
		}
	case 3:
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				out = append(out, n/2+i/2)
			} else {
				out = append(out, n/2-1-i/2)
			}
		}
	}
	return out
}

// hugeCheck compares every index, every key and every gap with the sorted content
// (keys are even), and bounds the comparisons of every lookup.
func hugeCheck(t sm.SortedMap, m Model, what string, cmps *int, bound int) error {
	return safely(func() error {
		if n, err := t.Len(); err != nil || n != len(m) {
			return fmt.Errorf("%s: Len %d, %v, want %d", what, n, err, len(m))
		}
		for i, e := range m {
			k, v, ok, err := t.GetByIndex(i)
			if err != nil || !ok || k != any(e.K) || v != any(e.V) {
				return fmt.Errorf("%s: GetByIndex(%d) = %v, %v, %v, %v, want %v", what, i, k, v, ok, err, e)
			}
			*cmps = 0
			v, ok, err = t.GetByKey(e.K)
			if err != nil || !ok || v != any(e.V) {
				return fmt.Errorf("%s: GetByKey(%d) = %v, %v, %v, want %v", what, e.K, v, ok, err, e)
			}
			if bound > 0 && *cmps > bound {
				return fmt.Errorf("%s: GetByKey(%d) took %d comparisons among %d items, bound %d", what, e.K, *cmps, len(m), bound)
			}
			j, ok, err := t.BisectLeft(e.K + 1)
			if err != nil || ok || j != i {
				return fmt.Errorf("%s: BisectLeft(%d) = %d, %v, %v, want %d", what, e.K+1, j, ok, err, i)
			}
			if j, ok, err = t.BisectRight(e.K - 1); err != nil || ok || j != i {
				return fmt.Errorf("%s: BisectRight(%d) = %d, %v, %v, want %d", what, e.K-1, j, ok, err, i)
			}
		}
		for _, i := range []int{-1, len(m), len(m) + 65536} {
			if _, _, ok, err := t.GetByIndex(i); ok || err != nil {
				return fmt.Errorf("%s: GetByIndex(%d) = %v, %v", what, i, ok, err)
			}
		}
		return nil
	})
}

// huge p=[order (0: LLRB), n, insertion pattern, deletion pattern]
func caseHuge(w *Worker, p []int64) error {
	order, n := int(p[0]), int(p[1])
	ins, del := perm(int(p[2]), n), perm(int(p[3]), n)
	cmps := 0
	compare := func(a, b sm.Key) (int, error) { cmps++; return cmpU64(a, b) }
	var t sm.SortedMap
	b := &BW{w: w, order: uint64(order), cfg: cfCB, st: newStore(false)}
	b.cb = &CB{b.st, codecs[0], false}
	bound := 0
	if order == 0 {
		t = sm.NewLLRBTree(compare, nil)
		bound = cmpBound(n)
	} else {
		b.t = b.create()
		t = b.t
	}
	key := func(i int) uint64 { return uint64(2*i + 2) }
	err := safely(func() error {
		for _, i := range ins {
			if ok, err := t.Put(key(i), uint64(i)*3); err != nil || !ok {
				return fmt.Errorf("Put(%d) = %v, %v", key(i), ok, err)
			}
		}
		for _, i := range ins[:min(n, 100)] {
			if ok, err := t.Put(key(i), uint64(0)); err != nil || ok {
				return fmt.Errorf("second Put(%d) = %v, %v", key(i), ok, err)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	gone := make([]bool, n)
	val := make([]uint64, n)
	for i := range val {
		val[i] = uint64(i) * 3
	}
	model := func() (m Model) {
		for i := range gone {
			if !gone[i] {
				m = append(m, KV{key(i), val[i]})
			}
		}
		return
	}
	check := func(what string) error {
		m := model()
		if err := hugeCheck(t, m, what, &cmps, bound); err != nil {
			return err
		}
		if err := validate(t); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if order == 0 {
			return nil
		}
		// flush, shape, reopen
		b.m = m
		if err := b.flush(false); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		s, _, err := decodeTree(b.st, b.loc, b.cb.c)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := checkShape(s, order); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := checkDims(b.t, b.order, len(m), s.depth+1); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		f, err := b.fork(b.loc, m)
		if err != nil {
			return err
		}
		if err := hugeCheck(f.t, m, what+", reopened", &cmps, 0); err != nil {
			return err
		}
		next := uint64(0)
		for steps := 0; next < uint64(len(m)); steps++ {
			nx, err := b.t.TouchItem(next)
			if err != nil || nx <= next {
				return fmt.Errorf("%s: TouchItem(%d) = %d, %v", what, next, nx, err)
			}
			next = nx
		}
		if len(m) == 0 {
			if err := b.t.Touch(); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		puts := b.st.puts
		if err := b.flush(true); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if d := b.st.puts - puts; d != s.nodes() {
			return fmt.Errorf("%s: after touching everything Flush wrote %d of %d nodes", what, d, s.nodes())
		}
		if err := b.t.Prune(); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if len(b.st.objs) != s.nodes() {
			return fmt.Errorf("%s: %d locations are allocated for %d nodes", what, len(b.st.objs), s.nodes())
		}
		return b.st.bad
	}
	if err := check("after inserting"); err != nil {
		return err
	}
	err = safely(func() error {
		for c, i := range del {
			if c >= n*2/3 {
				break
			}
			if ok, err := t.DeleteByKey(key(i)); err != nil || !ok {
				return fmt.Errorf("DeleteByKey(%d) = %v, %v", key(i), ok, err)
			}
			gone[i] = true
		}
		for j, left := 0, n-n*2/3; j < left; j += 7 {
			if ok, err := t.PatchByIndex(j, uint64(j)); err != nil || !ok {
				return fmt.Errorf("PatchByIndex(%d) = %v, %v", j, ok, err)
			}
		}
		for i, j := 0, 0; i < n; i++ {
			if !gone[i] {
				if j%7 == 0 {
					val[i] = uint64(j)
				}
				j++
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	if err := check("after deleting two thirds"); err != nil {
		return err
	}
	left := n - n*2/3
	err = safely(func() error {
		for ; left > 0; left-- {
			i := left * 5 / 8
			if ok, err := t.DeleteByIndex(i); err != nil || !ok {
				return fmt.Errorf("DeleteByIndex(%d) of %d = %v, %v", i, left, ok, err)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	for i := range gone {
		gone[i] = true
	}
	return check("after deleting everything")
}

func huge(r *Run, n int, orders ...int) {
	var cs [][]int64
	for _, o := range orders {
		for p := int64(0); p < 4; p++ {
			for d := int64(0); d < 4; d++ {
				cs = append(cs, []int64{int64(o), int64(n), p, d})
			}
		}
	}
	r.each(len(cs), func(w *Worker, i int) {
		w.do("huge", cs[i])
		r.part(fmt.Sprintf("histories of %d items", n), 1)
		r.trans.Add(int64(2 * n))
	})
}

// hugePart: as huge, for fewer orders of insertion and deletion.
func hugePart(r *Run, n int, orders ...int) {
	r.each(2*len(orders), func(w *Worker, i int) {
		w.do("huge", []int64{int64(orders[i/2]), int64(n), int64(i % 2 * 2), int64(2 - i%2)})
		r.part(fmt.Sprintf("histories of %d items", n), 1)
		r.trans.Add(int64(2 * n))
	})
}

func init() {
	kinds["huge"] = caseHuge
	describe["huge"] = func(p []int64) string {
		pats := []string{"ascending", "descending", "by a stride", "from the middle"}
		k := "LLRB"
		if p[0] > 0 {
			k = fmt.Sprintf("B+Tree of capacity %d", p[0])
		}
		return fmt.Sprintf("%s: insert %d items %s, delete %s", k, p[1], pats[p[2]], pats[p[3]])
	}
}
