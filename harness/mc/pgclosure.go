package main

import (
	"bytes"
	"fmt"
)

// Closure exploration of paging: a small universe of keys and an alphabet of data and
// paging operations; the reachable states are enumerated until no operation leads to a
// new one, so that histories of any length over the universe are covered. Storage
// locations are named apart by recognisable offsets, and states that differ only in the
// names of locations, in how often a superseded location was superseded, or in content
// that is no longer reachable, are identified.

const (
	pgPlain  = 1000 // added (with one) to the limits of a closure world
	plainOff = uint64(1) << 50

	kPut  = 40 // kPut+i: Put of the i-th key of the universe
	kDel  = 48
	kMax  = 8
	kTogF = 56 // toggle the value of the first item
	kTogM = 57
)

func isPlain(x uint64) bool { return x >= plainOff && x < plainOff<<1 }

// closureKey identifies the state of a closure world.
func (x *PW) closureKey() string {
	names := map[uint64]uint64{}
	kept := map[uint64]bool{}
	for _, t := range x.trees {
		if t.dead || !t.hasC || t.unrec {
			continue
		}
		if s, _, err := decodeTree(t.st, t.c, t.cb.c); err == nil {
			var rec func(s *Shape)
			rec = func(s *Shape) {
				kept[s.loc.Off] = true
				for _, k := range s.kids {
					rec(k)
				}
			}
			rec(s)
		}
	}
	loc := func(off uint64, inMap bool) (uint64, bool) {
		if !isPlain(off) {
			return 0, false
		}
		n, ok := names[off]
		if !ok {
			if inMap { // superseded
				if kept[off] {
					return 1 << 62, true
				}
				return 1<<62 + 1, true
			}
			n = uint64(len(names)) + 1<<61
			names[off] = n
		}
		return n, true
	}
	var hs []any
	for _, t := range x.trees {
		if t.dead {
			hs = append(hs, 1)
			continue
		}
		hs = append(hs, t.t, t.m, t.dirty, t.hasC, t.unrec, t.touched, t.maybe)
	}
	if x.cache != nil {
		hs = append(hs, x.cache)
	}
	// What is on storage only is part of the state as far as the tree refers to it.
	h := fingerprintLoc(loc, hs...)
	out := fmt.Sprint(h)
	for _, t := range x.trees {
		if t.dead || !t.hasC {
			continue
		}
		s, _, err := decodeTree(t.st, t.c, t.cb.c)
		if err != nil {
			continue
		}
		var rec func(s *Shape, in bool)
		rec = func(s *Shape, in bool) {
			if _, ok := names[s.loc.Off]; ok {
				in = true
				out += fmt.Sprint(names[s.loc.Off]&0xff, ":")
			}
			if in {
				out += fmt.Sprint(s.seps, s.vals, len(s.kids))
			}
			for _, k := range s.kids {
				rec(k, in)
			}
		}
		rec(s, false)
	}
	return out
}

type closureJob struct {
	pgJob
	max int // states
}

// exploreClosure enumerates the states of every job and checks mode's property after
// every transition.
func exploreClosure(r *Run, mode int, jobs []closureJob) {
	kind := fmt.Sprintf("paging%d", mode)
	perState := map[int]string{9: "damagec", 13: "rejc", 19: "dumpc"}[mode] // judged per state
	if perState != "" {
		kind = "paging0"
	}
	for _, j := range jobs {
		root := append([]int64{j.lim + pgPlain + 1, int64(len(j.bases))}, j.bases...)
		name := fmt.Sprintf("paging closure (trees %v, limits %d)", j.bases, j.lim)
		r.bfs(name, []bfsState{{root, ""}}, j.max, 1, func(wk *Worker, s bfsState, emit func([]int64, string, string)) {
			if perState != "" && !wk.do(perState, s.hist) {
				return
			}
			for _, o := range j.alphabet {
				if r.expired() {
					return
				}
				h := append(append(make([]int64, 0, len(s.hist)+1), s.hist...), o)
				r.trans.Add(1)
				key := ""
				wk.begin(kind, h)
				err := safely(func() error {
					x, err := pgRun(wk, h, 0)
					if err == nil {
						key = x.closureKey()
					}
					return err
				})
				wk.q.Reset()
				if err != nil {
					r.violate(Case{kind, h}, err)
					return
				}
				if perState == "" && !wk.do(kind, h) {
					return
				}
				emit(h, key, "")
			}
		})
	}
}

func span(base, n int64) (out []int64) {
	for i := int64(0); i < n; i++ {
		out = append(out, base+i)
	}
	return
}

// pgClosureJobs: n keys come and go in every tree.
func pgClosureJobs(lim int64, bases []int64, n int64, max int, paging []int64) []closureJob {
	var al []int64
	for t := range bases {
		for _, o := range append(append(append(span(kPut, n), span(kDel, n)...), kTogM), paging...) {
			if o == pEvict && (t > 0 || lim < 0) {
				continue
			}
			al = append(al, 100*int64(t)+o)
		}
	}
	return []closureJob{{pgJob{lim, bases, al, 0}, max}}
}

// pgClosures are the closures every paging property is decided on.
func pgClosures(r *Run, mode int) {
	al := []int64{pGetF, pGetL, pFlush, pFlushP, pPurge, pTouch, pPrune, pTIM, pPurgeT, pLayout, pVal, pEvict}
	if mode == 18 {
		al = al[:len(al)-1]
	}
	add := func(lim int64, n int64, max int, bases ...int64) {
		exploreClosure(r, mode, pgClosureJobs(lim, bases, n, max, al))
	}
	for _, lim := range []int64{-1, 2} {
		if mode == 17 && lim < 0 {
			lim = 3
		}
		if mode == 18 && lim > 0 {
			lim = 0
		}
		if mode == 9 && r.quick() {
			add(lim, 4, 1<<22, 8)
			add(lim, 2, 1<<22, 3)
			add(lim, 1, 1<<22, 7)
			continue
		}
		if perStateMode(mode) && r.quick() && lim > 0 {
			break
		}
		add(lim, pickTier[int64](r, 5, 6), 1<<22, 0)
		add(lim, pickTier[int64](r, 4, 5), 1<<22, 3)
		if r.quick() && lim > 0 && mode < 6 {
			break // content checks are slow with such a cache
		}
		add(lim, 1, 1<<22, 6)
		add(lim, 1, 1<<22, 7)
		add(lim, 2, 1<<22, 10)
	}
	two := pickTier[int64](r, 2, 3)
	switch mode {
	case 5, 7, 17:
		add(2, two, 1<<22, 0, 0)
	}
	if !r.quick() {
		add(-1, 7, 1<<22, 0)
		add(-1, 3, 1<<22, 9)
		if mode != 18 {
			add(2, 1, 200000, 3, 8)
			add(2, 1, 200000, 5)
		}
	}
}

func init() {
	for i := 0; i < kMax; i++ {
		pNames[kPut+i] = fmt.Sprintf("Put(key %d)", i)
		pNames[kDel+i] = fmt.Sprintf("Delete(key %d)", i)
	}
	pNames[kTogF], pNames[kTogM] = "Patch(key 0)", "Patch(key 2)"
}

// faultc p = [limits, trees, bases..., (op, k)...]: as a closure world, the k-th callback
// invocation of op failing (-1: none).
func faultRun(w *Worker, p []int64) (*PW, error) {
	w.hits = 0
	x, steps, err := newPW(w, p, true)
	if err != nil {
		return nil, err
	}
	for i := 0; i+1 < len(steps); i += 2 {
		t, code, k := x.trees[steps[i]/100], int(steps[i]%100), steps[i+1]
		hit := false
		if k >= 0 {
			t.st.armFault(int(k), false)
		}
		err := x.faultStep(t, code, func() bool {
			if k >= 0 {
				hit = t.st.disarm()
			}
			return hit
		}, fmt.Sprintf("callback invocation %d failing", k))
		if err != nil {
			return nil, fmt.Errorf("step %d: %w", i/2, err)
		}
		if i+3 >= len(steps) && hit {
			w.hits = 1
		}
	}
	return x, nil
}

func caseFaultClosure(w *Worker, p []int64) error {
	for v := 0; v < 4; v++ {
		x, err := faultRun(w, p)
		if err != nil {
			return err
		}
		hits := w.hits
		if v == 3 { // the operation again
			t := x.trees[p[len(p)-2]/100]
			if err := x.op1(t, int(p[len(p)-2]%100)); err != nil {
				return fmt.Errorf("the operation again: %w", err)
			}
			if err := x.drain(); err != nil {
				return err
			}
		}
		if err := x.faultFinal(v % 3); err != nil {
			return fmt.Errorf("then (variant %d): %w", v, err)
		}
		w.hits = hits
		w.q.Reset()
		if hits == 0 && v == 0 {
			break
		}
	}
	return nil
}

func faultClosure(r *Run, lim int64, base, n int64, max int) {
	al := append(append(append([]int64{}, span(kPut, n)...), span(kDel, n)...), kTogM, pGetF, pGetL, pFlush, pFlushP, pPurge, pTouch, pPrune, pTIM, pLayout)
	root := []int64{lim + pgPlain + 1, 1, base}
	r.bfs(fmt.Sprintf("fault closure (tree %d, limits %d)", base, lim), []bfsState{{root, ""}}, max, 1, func(wk *Worker, s bfsState, emit func([]int64, string, string)) {
		for _, o := range al {
			for k := int64(-1); ; k++ {
				if r.expired() {
					return
				}
				h := append(append(make([]int64, 0, len(s.hist)+2), s.hist...), o, k)
				r.trans.Add(1)
				key := ""
				wk.begin("faultc", h)
				err := safely(func() error {
					x, err := faultRun(wk, h)
					if err == nil {
						key = x.closureKey()
					}
					return err
				})
				hit := wk.hits == 1
				wk.q.Reset()
				if err != nil {
					r.violate(Case{"faultc", h}, err)
					return
				}
				if k >= 0 && !hit {
					break
				}
				if k >= 0 {
					r.nontriv.Add(1)
					if !wk.do("faultc", h) {
						return
					}
				}
				emit(h, key, "")
			}
		}
	})
}

func faultClosures(r *Run) {
	for _, lim := range []int64{-1, 2} {
		faultClosure(r, lim, 0, 4, 1<<22)
		faultClosure(r, lim, 8, 3, 1<<22)
		if lim < 0 || !r.quick() {
			faultClosure(r, lim, 3, 2, 1<<22)
		}
	}
	if !r.quick() {
		faultClosure(r, -1, 0, 5, 1<<22)
		faultClosure(r, 2, 7, 1, 8000)
	}
}

func init() {
	kinds["faultc"] = caseFaultClosure
	describe["faultc"] = func(p []int64) string {
		n := 2 + int(p[1])
		s := pgDescribe(p[:n])
		for i := n; i+1 < len(p); i += 2 {
			s += pNames[int(p[i]%100)]
			if p[i+1] >= 0 {
				s += fmt.Sprintf(" with callback invocation %d failing", p[i+1])
			}
			s += "; "
		}
		return s
	}
}

// rejc p = a closure history: in the state it leads to, every keyed operation is
// rejected by the comparator in every way; what is flushed and done afterwards must be
// what it is on a twin on which that was not attempted.
func caseRejClosure(w *Worker, p []int64) error {
	storage := func(x *PW) (out []Loc, by []byte) {
		st := x.trees[0].st
		out = st.list()
		for _, l := range out {
			by = append(by, st.objs[l].copy...)
		}
		return
	}
	type result struct {
		ok   bool
		locs []Loc
		by   []byte
	}
	// try runs the history, then the operation, and tells what happens afterwards.
	try := func(op int, key uint64, mode int) (rs []result, err error) {
		x, err := pgRun(w, p, 0)
		if err != nil {
			return nil, err
		}
		t := x.trees[0]
		if op >= 0 {
			t.reject, t.rejHit = rejecter(key, mode), false
			err := safely(func() (e error) { _, e = callOp(t.t, op, key, 77); return })
			t.reject = nil
			what := fmt.Sprintf("%s on %v with the comparator rejecting the key (mode %d)", opStr(op, key, 77), t.m, mode)
			if _, ok := err.(panicErr); ok || (t.rejHit || mode == rejAll) != (err != nil) {
				return nil, fmt.Errorf("%s: %v", what, err)
			}
			if err == nil {
				return nil, nil
			}
			if err := x.drain(); err != nil {
				return nil, err
			}
			defer func() {
				if err != nil {
					err = fmt.Errorf("after %s: %w", what, err)
				}
			}()
		}
		for round, ops := range [][]int{{pFlush}, {pDelF, pPutL, pFlush, pPrune}} {
			for _, o := range ops {
				if err := x.op1(t, o); err != nil {
					return nil, err
				}
				if err := x.drain(); err != nil {
					return nil, err
				}
			}
			l, b := storage(x)
			rs = append(rs, result{true, l, b})
			if op >= 0 && round == 1 {
				if err := checkLight(drained{t.t, x}, &t.m); err != nil {
					return nil, err
				}
				if err := validate(t.t); err != nil {
					return nil, err
				}
			}
		}
		w.q.Reset()
		return rs, x.bad()
	}
	x, err := pgRun(w, p, 0)
	if err != nil {
		return err
	}
	m := x.trees[0].m.clone()
	w.q.Reset()
	if len(m) == 0 {
		return nil
	}
	want, err := try(-1, 0, 0)
	if err != nil {
		return err
	}
	for _, op := range rejOps {
		for mode := 0; mode < nRejModes; mode++ {
			var keys []uint64
			for i, e := range m {
				if mode == rejAll {
					keys = append(keys, e.K)
				}
				if i == 0 {
					keys = append(keys, e.K-1)
				}
				keys = append(keys, e.K+1)
			}
			for _, k := range keys {
				got, err := try(op, k, mode)
				if err != nil {
					return err
				}
				for i := range got {
					if fmt.Sprint(got[i].locs) != fmt.Sprint(want[i].locs) || !bytes.Equal(got[i].by, want[i].by) {
						return fmt.Errorf("after %s on %v was rejected (mode %d), what is stored (round %d) differs from what is stored had it not been attempted: %v, want %v", opStr(op, k, 77), m, mode, i, got[i].locs, want[i].locs)
					}
				}
			}
		}
	}
	return nil
}

func init() {
	kinds["rejc"] = caseRejClosure
	describe["rejc"] = pgDescribe
}

func perStateMode(m int) bool { return m == 9 || m == 13 || m == 19 }

// dumpc p = a closure history: Dump in the state it leads to.
func caseDumpClosure(w *Worker, p []int64) error {
	x, err := pgRun(w, p, 0)
	if err != nil {
		return err
	}
	t := x.trees[0]
	if err := dumpBT(t.BW, nil); err != nil {
		return err
	}
	if err := x.drain(); err != nil {
		return err
	}
	if err := checkLight(drained{t.t, x}, &t.m); err != nil {
		return fmt.Errorf("after Dump: %w", err)
	}
	if err := x.op1(t, pFlush); err != nil {
		return err
	}
	s, _, err := decodeTree(t.st, t.c, t.cb.c)
	if err != nil {
		return err
	}
	if err := checkShape(s, 4); err != nil {
		return err
	}
	seps := map[uint64]bool{}
	for _, k := range s.allSeps(nil) {
		seps[k] = true
	}
	if err := dumpBT(t.BW, seps); err != nil {
		return fmt.Errorf("flushed: %w", err)
	}
	return x.bad()
}

// damagec p = a closure history: in the state it leads to, every stored node's image is
// damaged in several ways while an operation runs.
func caseDamageClosure(w *Worker, p []int64) error {
	x, err := pgRun(w, p, 0)
	if err != nil {
		return err
	}
	t := x.trees[0]
	if !t.hasC || t.unrec {
		return nil
	}
	s, _, err := decodeTree(t.st, t.c, t.cb.c)
	if err != nil {
		return err
	}
	locs := s.locs(nil)
	for bad := range locs {
		for alt := int64(0); alt < 3; alt++ {
			for _, o := range []int{pGetF, pGetL, pPutF, pPutM, pDelF, pDelM, pDelL, pPatM, pTIM, pTouch, pVal, pDim, pFlush, pPrune} {
				if x, err = pgRun(w, p, 0); err != nil {
					return err
				}
				t = x.trees[0]
				used := false
				t.st.image = func(l Loc, by []byte) []byte {
					if l != bad {
						return by
					}
					used = true
					switch alt {
					case 0:
						return altered(altTrunc, int64(len(by)-1), by)
					case 1:
						return altered(altExtend, 1, by)
					}
					at := 10
					if by[8] == 1 {
						at = 18
					}
					return altered(altCount, int64(by[at])+1, by)
				}
				what := fmt.Sprintf("the image of node %v damaged (%s)", bad, []string{"truncated by one byte", "extended by one byte", "count one higher"}[alt])
				if err := x.faultStep(t, o, func() bool { t.st.image = nil; return used }, what); err != nil {
					return err
				}
				if used {
					w.hits++
					if err := x.op1(t, o); err != nil {
						return fmt.Errorf("%s again, after %s was corrected: %w", pNames[o], what, err)
					}
					if err := x.drain(); err != nil {
						return err
					}
				}
				if err := checkLight(drained{t.t, x}, &t.m); err != nil {
					return fmt.Errorf("after %s with %s: %w", pNames[o], what, err)
				}
				if err := validate(t.t); err != nil {
					return fmt.Errorf("after %s with %s: %w", pNames[o], what, err)
				}
				if err := x.bad(); err != nil {
					return err
				}
				w.q.Reset()
			}
		}
	}
	return nil
}

func init() {
	kinds["dumpc"], kinds["damagec"] = caseDumpClosure, caseDamageClosure
	describe["dumpc"], describe["damagec"] = pgDescribe, pgDescribe
}

// pgFinalFormat (C11): every image of a flushed tree is, byte for byte, what the
// documented layout prescribes for it.
func pgFinalFormat(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead {
			continue
		}
		if err := x.op1(t, pFlush+variant); err != nil {
			return err
		}
		s, order, err := decodeTree(t.st, t.c, t.cb.c)
		if err != nil {
			return err
		}
		if order != t.order {
			return fmt.Errorf("root image states capacity %d, want %d", order, t.order)
		}
		if m := shapeItems(s); !m.equal(t.m) {
			return fmt.Errorf("images hold %v, want %v", m, t.m)
		}
		if err := checkSepsOnly(s); err != nil {
			return err
		}
		for l := range s.locs(nil) {
			by := t.st.objs[l].copy
			r, err := decodeNode(by, t.cb.c)
			if err != nil {
				return fmt.Errorf("image %x: %w", by, err)
			}
			if y := encodeNode(r, t.cb.c); !bytes.Equal(y, by) {
				return fmt.Errorf("image %x, want %x", by, y)
			}
		}
	}
	return x.bad()
}
