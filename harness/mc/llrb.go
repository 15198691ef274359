package main

import (
	"fmt"
	"math"

	sm "github.com/NVIDIA/sortedmap"
)

// LLRB exploration: breadth-first search over all reachable tree shapes. A state is
// the search-path structure seen through the comparator (which key is compared with
// which when looking each key up); it determines the tree's shape.

type llrbWorld struct {
	t      sm.LLRBTree
	m      Model
	cmps   int
	rec    *[]uint64
	reject func(a, b uint64) bool
}

func newLLRBWorld() *llrbWorld { return newLLRBWorldOf(false) }

func newLLRBWorldOf(box bool) *llrbWorld {
	w := &llrbWorld{}
	cb := &CB{newStore(false), codecs[0], false}
	w.t = sm.NewLLRBTree(func(a, b sm.Key) (int, error) {
		w.cmps++
		if box {
			p, ok1 := unboxK(a)
			q, ok2 := unboxK(b)
			if !ok1 || !ok2 {
				return 0, errNotUint
			}
			a, b = p, q
		}
		if w.rec != nil {
			if y, ok := b.(uint64); ok {
				*w.rec = append(*w.rec, y)
			}
		}
		if w.reject != nil && w.reject(a.(uint64), b.(uint64)) {
			return int((a.(uint64)+b.(uint64))%3) - 1, errIncomparable // the number means nothing
		}
		return cmpU64(a, b)
	}, cb)
	if box {
		w.t = boxedLLRB{w.t, newBoxedMap(w.t)}
	}
	return w
}

// structure is the canonical comparison structure of the tree.
func (w *llrbWorld) structure() string {
	b := make([]byte, 0, 64)
	for _, e := range w.m {
		var rec []uint64
		w.rec = &rec
		w.t.GetByKey(e.K)
		w.rec = nil
		for _, y := range rec {
			i, _ := w.m.find(y)
			b = append(b, byte(i))
		}
		b = append(b, 0xff)
	}
	return string(b)
}

func (w *llrbWorld) subfp() string {
	f := fingerprint(func(k uint64) uint64 { i, _ := w.m.find(k); return uint64(i) }, w.t)
	return fmt.Sprint(f)
}

// replayLLRB executes a history of (code, a, v) triples.
func replayLLRB(w *llrbWorld, p []int64) error {
	for i := 0; i+2 < len(p); i += 3 {
		if p[i] == -1 {
			w.t.Reset()
			w.m = nil
			continue
		}
		if p[i] == xValidate {
			if err := validate(w.t); err != nil {
				return fmt.Errorf("step %d: %w", i/3, err)
			}
			continue
		}
		if err := exec(w.t, &w.m, int(p[i]), uint64(p[i+1]), uint64(p[i+2])); err != nil {
			return fmt.Errorf("step %d: %w", i/3, err)
		}
	}
	return nil
}

func histStr(p []int64) string {
	s := ""
	for i := 0; i+2 < len(p); i += 3 {
		if p[i] == -1 {
			s += "Reset() "
			continue
		}
		if p[i] < 0 {
			s += map[int64]string{xValidate: "Validate() ", xFlush: "Flush(false) ", xFlushP: "Flush(true) ", xPurge: "Purge(false) ", xReopen: "reopen "}[p[i]]
			continue
		}
		s += opStr(int(p[i]), uint64(p[i+1]), uint64(p[i+2])) + " "
	}
	return s
}

// gapKeys lists one fresh key per gap of the model (including both ends).
func gapKeys(m Model) []uint64 {
	var out []uint64
	for i := 0; i <= len(m); i++ {
		lo, hi := uint64(0), ^uint64(0)
		if i > 0 {
			lo = m[i-1].K
		}
		if i < len(m) {
			hi = m[i].K
		}
		if hi-lo > 1 {
			out = append(out, keyBetween(lo, hi))
		}
	}
	return out
}

// cmpBound is the lookup comparison bound for n items.
func cmpBound(n int) int { return int(2*math.Log2(float64(n)+1)) + 1 }

func checkCost(w *llrbWorld) error {
	for _, e := range w.m {
		w.cmps = 0
		if _, _, err := w.t.GetByKey(e.K); err != nil {
			return err
		}
		if w.cmps > cmpBound(len(w.m)) {
			return fmt.Errorf("looking up one of %d keys took %d comparisons (bound %d)", len(w.m), w.cmps, cmpBound(len(w.m)))
		}
	}
	for _, g := range gapKeys(w.m) {
		w.cmps = 0
		if _, _, err := w.t.GetByKey(g); err != nil {
			return err
		}
		if w.cmps > cmpBound(len(w.m)) {
			return fmt.Errorf("looking up an absent key among %d took %d comparisons (bound %d)", len(w.m), w.cmps, cmpBound(len(w.m)))
		}
	}
	return nil
}

// llrb content case: history then full content check.
func caseLLRBContent(_ *Worker, p []int64) error {
	w := newLLRBWorld()
	if err := replayLLRB(w, p); err != nil {
		return err
	}
	if err := checkAll(w.t, &w.m); err != nil {
		return err
	}
	if err := validate(w.t); err != nil {
		return err
	}
	if err := safely(w.t.Dump); err != nil {
		return fmt.Errorf("Dump: %w", err)
	}
	return checkLight(w.t, &w.m)
}

func caseLLRBCost(_ *Worker, p []int64) error {
	w := newLLRBWorld()
	if err := replayLLRB(w, p); err != nil {
		return err
	}
	return checkCost(w)
}

// exploreLLRB walks all shapes with at most maxN items. perState is executed as a
// case on every state's history, perTrans on every transition.
func exploreLLRB(r *Run, maxN, maxStates int, stateKinds []string, transKinds []string) {
	vals := int64(0)
	_ = vals
	r.bfs("llrb shapes", []bfsState{{nil, ""}}, maxStates, 6, func(wk *Worker, s bfsState, emit func([]int64, string, string)) {
		for _, k := range stateKinds {
			if !wk.do(k, s.hist) {
				return
			}
		}
		base := newLLRBWorld()
		if err := safely(func() error { return replayLLRB(base, s.hist) }); err != nil {
			r.violate(Case{"llrb.content", s.hist}, err)
			return
		}
		var ops [][3]int64
		n := len(base.m)
		if n < maxN {
			for _, g := range gapKeys(base.m) {
				ops = append(ops, [3]int64{oPut, int64(g), int64(g%97 + 1)})
			}
		}
		for i, e := range base.m {
			ops = append(ops, [3]int64{oDel, int64(e.K), 0}, [3]int64{oDelI, int64(i), 0})
		}
		if n > 0 {
			ops = append(ops, [3]int64{-1, 0, 0})
		}
		for _, o := range ops {
			if r.expired() {
				return
			}
			h := append(append(make([]int64, 0, len(s.hist)+3), s.hist...), o[0], o[1], o[2])
			r.trans.Add(1)
			for _, k := range transKinds {
				if !wk.do(k, h) {
					return
				}
			}
			wk.begin("llrb.content", h)
			w := newLLRBWorld()
			var key, sub string
			err := safely(func() error {
				if err := replayLLRB(w, h); err != nil {
					return err
				}
				key, sub = w.structure(), w.subfp()
				return nil
			})
			if err != nil {
				r.violate(Case{"llrb.content", h}, err)
				return
			}
			if o[0] == -1 {
				// a reset map must be as good as a new one: always expand it once more
				sub = "reset" + sub
			}
			emit(h, key, sub)
		}
	})
}

// patterns: systematic large histories.
// kind p: [pattern, n, delPattern, which]
func patternKeys(pat, n int) []uint64 {
	var ks []uint64
	switch pat {
	case 0: // ascending
		for i := 0; i < n; i++ {
			ks = append(ks, uint64(i+1)*16)
		}
	case 1: // descending
		for i := n; i > 0; i-- {
			ks = append(ks, uint64(i)*16)
		}
	case 2: // outside in
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				ks = append(ks, uint64(i/2+1)*16)
			} else {
				ks = append(ks, uint64(n-i/2)*16)
			}
		}
	case 3: // inside out
		mid := n / 2
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				ks = append(ks, uint64(mid+i/2+1)*16)
			} else {
				ks = append(ks, uint64(mid-i/2)*16)
			}
		}
	case 4: // bit reversal
		bits := 1
		for 1<<bits < n {
			bits++
		}
		for i := 0; i < 1<<bits; i++ {
			x := 0
			for b := 0; b < bits; b++ {
				if i>>b&1 == 1 {
					x |= 1 << (bits - 1 - b)
				}
			}
			if x < n {
				ks = append(ks, uint64(x+1)*16)
			}
		}
	case 5: // stride
		st := 7
		for gcd(st, n) != 1 {
			st += 2
		}
		for i := 0; i < n; i++ {
			ks = append(ks, uint64(i*st%n+1)*16)
		}
	}
	return ks
}

const nPatterns = 6

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// delOrder gives indices (at the time of deletion) for deletion pattern d on n items.
func delOrder(d, n int) []int {
	var out []int
	for m := n; m > 0; m-- {
		switch d {
		case 0:
			out = append(out, 0)
		case 1:
			out = append(out, m-1)
		case 2:
			out = append(out, m/2)
		case 3:
			out = append(out, (m*3/4)%m)
		case 4:
			if m%2 == 0 {
				out = append(out, 0)
			} else {
				out = append(out, m-1)
			}
		case 5:
			out = append(out, (m*7)%(m+0)+(m/3)%m-(m*7)%(m+0))
		}
	}
	return out
}

const nDelPatterns = 6

// case "llrb.large" p=[pat,n,del,mode]: insert, then delete following a pattern,
// checking content (mode 0) or cost (mode 1) at checkpoints.
func caseLLRBLarge(_ *Worker, p []int64) error {
	pat, n, del, mode := int(p[0]), int(p[1]), int(p[2]), int(p[3])
	w := newLLRBWorld()
	ck := func(full bool) error {
		if mode == 1 {
			return checkCost(w)
		}
		if err := validate(w.t); err != nil {
			return err
		}
		if full {
			return checkAll(w.t, &w.m)
		}
		return checkLight(w.t, &w.m)
	}
	for i, k := range patternKeys(pat, n) {
		if err := exec(w.t, &w.m, oPut, k, k+uint64(i)); err != nil {
			return err
		}
		if (i+1)%(n/8+1) == 0 {
			if err := ck(false); err != nil {
				return err
			}
		}
	}
	if err := ck(true); err != nil {
		return err
	}
	for j, i := range delOrder(del, n) {
		var err error
		if j%2 == 0 {
			err = exec(w.t, &w.m, oDelI, uint64(i), 0)
		} else {
			err = exec(w.t, &w.m, oDel, w.m[i].K, 0)
		}
		if err != nil {
			return err
		}
		if (j+1)%(n/8+1) == 0 {
			if err := ck(j > n/2); err != nil {
				return err
			}
		}
		if j == n*3/4 && del%2 == 0 { // regrow half way
			for x := 0; x < n/4; x++ {
				if err := exec(w.t, &w.m, oPut, uint64(x*32+5), uint64(x)); err != nil {
					return err
				}
			}
			if err := ck(true); err != nil {
				return err
			}
			break
		}
	}
	return ck(true)
}

func llrbLarge(r *Run, sizes []int, mode int) {
	type c struct{ pat, n, del int }
	var cs []c
	for _, n := range sizes {
		for pat := 0; pat < nPatterns; pat++ {
			for d := 0; d < nDelPatterns; d++ {
				cs = append(cs, c{pat, n, d})
			}
		}
	}
	r.each(len(cs), func(w *Worker, i int) {
		w.do("llrb.large", []int64{int64(cs[i].pat), int64(cs[i].n), int64(cs[i].del), int64(mode)})
		r.part("llrb large histories", 1)
		r.trans.Add(int64(cs[i].n))
	})
	if r.expired() && !r.stop.Load() {
		r.over("llrb large histories")
	}
}

func init() {
	kinds["llrb.content"] = caseLLRBContent
	kinds["llrb.boxed"] = func(_ *Worker, p []int64) error {
		w := newLLRBWorldOf(true)
		if err := replayLLRB(w, p); err != nil {
			return err
		}
		if err := checkAll(w.t, &w.m); err != nil {
			return err
		}
		for i := range w.m {
			if err := exec(w.t, &w.m, oPat, w.m[i].K, uint64(i%2)); err != nil {
				return err
			}
			if err := exec(w.t, &w.m, oPatI, uint64(i), uint64(i%3)); err != nil {
				return err
			}
			if err := checkLight(w.t, &w.m); err != nil {
				return err
			}
		}
		return validate(w.t)
	}
	describe["llrb.boxed"] = histStr
	kinds["llrb.cost"] = caseLLRBCost
	kinds["llrb.large"] = caseLLRBLarge
	describe["llrb.content"] = histStr
	describe["llrb.cost"] = histStr
	levels["C01"] = "model_checking"
	checks["C01"] = func(r *Run) {
		maxN := pickTier(r, 22, 27)
		r.sample("all LLRB shapes with at most %d items; e.g. history %s", maxN, histStr([]int64{oPut, 100, 1, oPut, 50, 2, oDelI, 0, 0, -1, 0, 0, oPut, 7, 7}))
		exploreLLRB(r, maxN, pickTier(r, 40000, 400000), []string{"llrb.content", "llrb.patch", "llrb.boxed"}, nil)
		closure(r, 0, 0, pickTier(r, 8, 9), map[int]bool{0: true, 2: true, 3: true, 5: true, 6: true}, pickTier(r, 60000, 600000))
		closure(r, 0, 0, pickTier(r, 11, 13), map[int]bool{4: true}, pickTier(r, 60000, 600000))
		llrbLarge(r, pickTier(r, []int{31, 100, 257}, []int{31, 64, 100, 257, 600, 1025}), 0)
		huge(r, pickTier(r, 3000, 100000), 0)
		huge(r, 70000, 0)
	}
	kinds["llrb.patch"] = func(_ *Worker, p []int64) error {
		w := newLLRBWorld()
		if err := replayLLRB(w, p); err != nil {
			return err
		}
		for i := range w.m {
			if err := exec(w.t, &w.m, oPat, w.m[i].K, uint64(1000+i)); err != nil {
				return err
			}
			if err := checkLight(w.t, &w.m); err != nil {
				return err
			}
			if err := exec(w.t, &w.m, oPatI, uint64(i), uint64(2000+i)); err != nil {
				return err
			}
			if err := checkLight(w.t, &w.m); err != nil {
				return err
			}
		}
		return checkAll(w.t, &w.m)
	}
	describe["llrb.patch"] = histStr
}
