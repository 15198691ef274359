package main

import (
	"errors"
	"fmt"
	"os"

	sm "github.com/NVIDIA/sortedmap"
)

// Callback faults (C08) and damaged images (C09): every invocation of a callback by
// every operation from every base tree and residency fails in turn.

func isPanicErr(err error) bool { var p panicErr; return errors.As(err, &p) }
func isWrong(err error) bool    { var p wrongErr; return errors.As(err, &p) }

// faultStep executes one operation during which something may be made to fail: hit
// tells (afterwards) whether it has. An operation that is hit must report an error
// and must not have changed anything.
func (x *PW) faultStep(t *PT, code int, hit func() bool, what string) error {
	m, dirty, maybe, c, cm, hasC, unrec := t.m.clone(), t.dirty, t.maybe, t.c, t.cm, t.hasC, t.unrec
	err := x.op1(t, code)
	h := hit()
	if isPanicErr(err) || isWrong(err) {
		return fmt.Errorf("%s with %s: %w", pNames[code], what, err)
	}
	if t.st.bad != nil {
		return fmt.Errorf("%s with %s: %w", pNames[code], what, t.st.bad)
	}
	if !h {
		if err != nil {
			return fmt.Errorf("%s (nothing failed): %w", pNames[code], err)
		}
		return x.drain()
	}
	if err == nil {
		return fmt.Errorf("%s reported success though %s", pNames[code], what)
	}
	t.m, t.dirty, t.c, t.cm, t.hasC, t.unrec, t.dead = m, dirty, c, cm, hasC, unrec, false
	t.maybe = true
	if code == pDiscard || (code == pPrune && (dirty || maybe)) {
		t.unrec = true
	}
	return x.drain()
}

// faultFinal checks that everything afterwards is as exact as if nothing had failed.
func (x *PW) faultFinal(variant int) error {
	for _, t := range x.trees {
		if t.dead {
			if len(t.st.objs) != 0 {
				return fmt.Errorf("Discard left %v allocated", t.st.list())
			}
			continue
		}
		if err := t.recoverable(); err != nil {
			return fmt.Errorf("the last completed flush (%v) is lost: %w", t.c, err)
		}
		if variant == 2 {
			if err := x.op1(t, pDiscard); err != nil {
				return err
			}
			if err := x.drain(); err != nil {
				return err
			}
			continue
		}
		if variant == 0 {
			if err := checkLight(drained{t.t, x}, &t.m); err != nil {
				return fmt.Errorf("content: %w", err)
			}
			if err := validate(t.t); err != nil {
				return err
			}
			if err := x.drain(); err != nil {
				return err
			}
		}
		for round := 0; round < 2; round++ {
			if err := x.op1(t, pFlush+variant); err != nil {
				return err
			}
			if err := x.drain(); err != nil {
				return err
			}
			if err := t.recoverable(); err != nil {
				return fmt.Errorf("reopening %v: %w", t.c, err)
			}
			if err := x.op1(t, pPrune); err != nil {
				return err
			}
			s, _, err := decodeTree(t.st, t.c, t.cb.c)
			if err != nil {
				return fmt.Errorf("after Flush and Prune: %w", err)
			}
			if n := len(s.locs(nil)); n != len(t.st.objs) {
				return fmt.Errorf("after Flush and Prune %v are allocated, %d of them reachable", t.st.list(), n)
			}
			if err := checkShape(s, 4); err != nil {
				return err
			}
			if err := checkLight(drained{t.t, x}, &t.m); err != nil {
				return fmt.Errorf("content: %w", err)
			}
			if round == 0 {
				for _, c := range []int{pPutM, pDelL} {
					if err := x.op1(t, c); err != nil {
						return err
					}
				}
			}
		}
		if err := x.op1(t, pDiscard); err != nil {
			return err
		}
		if err := x.drain(); err != nil {
			return err
		}
	}
	if x.cache != nil {
		if s := x.cache.Stats(); s.CleanLRUItems != 0 || s.DirtyLRUItems != 0 {
			return fmt.Errorf("after discarding every tree the cache still counts %d unmodified and %d modified nodes", s.CleanLRUItems, s.DirtyLRUItems)
		}
	}
	return x.bad()
}

// fault p = [lim, base, npre, pre..., variant, (op, k, all)...]: k is the callback
// invocation that fails (-1: none), all: so do all later ones of that operation.
// w.hits tells how many of the armed faults were reached.
func caseFault(w *Worker, p []int64) error {
	w.hits = 0
	np := int(p[2])
	x, pre, err := newPW(w, append([]int64{p[0], 1, p[1]}, p[3:3+np]...), true)
	if err != nil {
		return err
	}
	for _, o := range pre {
		if err := x.op(o); err != nil {
			return fmt.Errorf("%s: %w", pNames[int(o)], err)
		}
	}
	variant, steps := int(p[3+np]), p[4+np:]
	t := x.trees[0]
	for i := 0; i+2 < len(steps); i += 3 {
		if t.dead {
			continue
		}
		code, k := int(steps[i]), steps[i+1]
		what := "nothing failing"
		if k >= 0 {
			t.st.armFault(int(k), steps[i+2] == 1)
		}
		if err := x.faultStep(t, code, func() bool {
			if k < 0 {
				return false
			}
			kind := t.st.faultKind
			h := t.st.disarm()
			if h {
				w.hits++
				what = "a failing callback"
				if kind >= 0 {
					what = "failing " + cbNames[kind]
				}
			}
			return h
		}, fmt.Sprintf("callback invocation %d failing", k)); err != nil {
			return fmt.Errorf("step %d (%s): %w", i/3, what, err)
		}
		if variant == 3 { // look at the content straight away
			if err := checkLight(drained{t.t, x}, &t.m); err != nil && !t.dead {
				return fmt.Errorf("content after step %d (%s with %s): %w", i/3, pNames[code], what, err)
			}
		}
	}
	fv := variant
	if fv == 3 {
		fv = 0
	}
	if err := x.faultFinal(fv); err != nil {
		return fmt.Errorf("afterwards: %w", err)
	}
	return nil
}

func faultDescribe(p []int64) string {
	np := int(p[2])
	s := pgDescribe(append([]int64{p[0], 1, p[1]}, p[3:3+np]...))
	for i := 4 + np; i+2 < len(p); i += 3 {
		s += pNames[int(p[i])]
		if p[i+1] >= 0 {
			s += fmt.Sprintf(" with callback invocation %d", p[i+1])
			if p[i+2] == 1 {
				s += " and all later ones"
			}
			s += " failing"
		}
		s += "; "
	}
	return s + fmt.Sprintf("final check variant %d", p[3+np])
}

// fault.open p = [base, k]: failing callbacks while reopening.
func caseFaultOpen(w *Worker, p []int64) error {
	w.hits = 0
	sh, m := pgShape(pgBases[p[0]])
	for _, cached := range []bool{false, true} {
		b := &BW{w: w, order: 4, cfg: cfCB, st: newStore(true)}
		if cached {
			b.cache = sm.NewBPlusTreeCache(1, 2)
		}
		b.cb = &CB{b.st, codecs[0], false}
		b.m = m.clone()
		l := writeShape(b.st, sh, 4, codecs[0])
		b.st.armFault(int(p[1]), false)
		_, err := b.open(l, b.cache)
		hit := b.st.disarm()
		if isPanicErr(err) || (hit && err == nil) || (!hit && err != nil) {
			return fmt.Errorf("reopening with callback invocation %d failing (reached: %v): %v", p[1], hit, err)
		}
		if hit {
			w.hits++
		}
		if b.t, err = b.open(l, b.cache); err != nil {
			return err
		}
		if err := b.drain(); err != nil {
			return err
		}
		if err := checkLight(b.t, &b.m); err != nil {
			return err
		}
		if err := validate(b.t); err != nil {
			return err
		}
		if err := b.drain(); err != nil {
			return err
		}
		if err := safely(b.t.Discard); err != nil {
			return err
		}
		if b.st.bad != nil || len(b.st.objs) > 0 {
			return fmt.Errorf("after Discard %v allocated (%v)", b.st.list(), b.st.bad)
		}
	}
	return nil
}

type dumpFault struct {
	k, n int
	hit  bool
}

func (d *dumpFault) tick(x any) (string, error) {
	d.n++
	if d.n-1 == d.k {
		d.hit = true
		return "", errFault
	}
	return fmt.Sprint(x), nil
}
func (d *dumpFault) DumpKey(k sm.Key) (string, error)     { return d.tick(k) }
func (d *dumpFault) DumpValue(v sm.Value) (string, error) { return d.tick(v) }

// fault.llrb p = [n, k]: failing dump callbacks of an LLRB tree.
func caseFaultLLRB(w *Worker, p []int64) error {
	w.hits = 0
	d := &dumpFault{k: -1}
	t := sm.NewLLRBTree(cmpU64, d)
	var m Model
	for i := int64(0); i < p[0]; i++ {
		if err := exec(t, &m, oPut, uint64(i*7%31), uint64(i)); err != nil {
			return err
		}
	}
	d.n, d.k = 0, int(p[1])
	err := safely(t.Dump)
	if isPanicErr(err) || (d.hit && err == nil) || (!d.hit && err != nil) {
		return fmt.Errorf("Dump of %d items with callback invocation %d failing (reached: %v): %v", p[0], p[1], d.hit, err)
	}
	if d.hit {
		w.hits++
	}
	d.k = -1
	if err := safely(t.Dump); err != nil {
		return err
	}
	if err := checkAll(t, &m); err != nil {
		return err
	}
	return validate(t)
}

// ---------------------------------------------------------------- damaged images

// Alterations of a node image.
const (
	altTrunc  = iota // keep arg bytes
	altExtend        // append arg bytes of the tail (cyclic) plus padding
	altCount         // replace the count by arg
	altZeros         // append arg zero bytes
	nAlt
)

func altered(kind, arg int64, b []byte) []byte {
	switch kind {
	case altTrunc:
		return b[:arg:arg]
	case altExtend:
		for i := int64(0); i < arg; i++ {
			b = append(b, b[len(b)-1-int(i)*7%len(b)]^0x5a)
		}
	case altZeros:
		b = append(b, make([]byte, arg)...)
	case altCount:
		at := 10
		if b[8] == 1 {
			at = 18
		}
		for i := 0; i < 8; i++ {
			b[at+i] = byte(arg >> (8 * i))
		}
	}
	return b
}

// imageNodes lists the node locations of a stored tree, root first.
func imageNodes(s *Shape) (out []Loc) {
	out = append(out, s.loc)
	for _, k := range s.kids {
		out = append(out, imageNodes(k)...)
	}
	return
}

// damage p = [base, codec, cached, npre, pre..., node, alteration, arg, op]: op -1 is reopening.
func caseDamage(w *Worker, p []int64) error {
	w.hits = 0
	base, codec, cached, np := p[0], codecs[p[1]], p[2], int(p[3])
	pre := p[4 : 4+np]
	q := p[4+np:]
	node, alt, arg, op := int(q[0]), q[1], q[2], int(q[3])
	st := newStore(true)
	x := &PW{w: w}
	if cached == 1 {
		x.low, x.high = 1, 2
		x.cache = sm.NewBPlusTreeCache(1, 2)
	}
	sh, m := pgShape(pgBases[base])
	if codec.noVals {
		for i := range m {
			m[i].V = 0
		}
	}
	b := &BW{w: w, order: 4, cfg: cfCB, st: st, cache: x.cache, cb: &CB{st, codec, false}, m: m}
	l := writeShape(st, sh, 4, codec)
	t := &PT{BW: b, cm: m.clone(), c: l, hasC: true}
	x.trees = []*PT{t}
	bad := imageNodes(sh)[node]
	used := false
	arm := func() {
		used = false
		st.image = func(l Loc, by []byte) []byte {
			if l == bad {
				used = true
				return altered(alt, arg, by)
			}
			return by
		}
	}
	what := fmt.Sprintf("node %d of the stored tree (%d bytes) damaged (%s %d)", node, bad.Len, []string{"truncated to", "extended by", "count changed to", "extended by zeros:"}[alt], arg)
	var err error
	if op == -1 {
		arm()
		_, err = b.open(l, x.cache)
		st.image = nil
		if isPanicErr(err) || (used && err == nil) || (!used && err != nil) {
			return fmt.Errorf("reopening with %s (read: %v): %v", what, used, err)
		}
		if used {
			w.hits++
		}
	}
	if b.t, err = b.open(l, x.cache); err != nil {
		return err
	}
	if err := x.drain(); err != nil {
		return err
	}
	for _, o := range pre {
		if err := x.op(o); err != nil {
			return err
		}
	}
	if op >= 0 {
		arm()
		if err := x.faultStep(t, op, func() bool { st.image = nil; return used }, what); err != nil {
			return err
		}
		if used {
			w.hits++
			// the same operation again, now with the correct image
			if err := x.op1(t, op); err != nil {
				return fmt.Errorf("%s again, after %s was corrected: %w", pNames[op], what, err)
			}
			if err := x.drain(); err != nil {
				return err
			}
		}
	}
	if t.dead {
		return x.bad()
	}
	if err := checkLight(drained{t.t, x}, &t.m); err != nil {
		return fmt.Errorf("after %s: %w", what, err)
	}
	if err := validate(t.t); err != nil {
		return fmt.Errorf("after %s: %w", what, err)
	}
	return x.bad()
}

// badimage p = [base, node, what, arg]: hand-built trees Validate must refuse (what 0: sound).
const (
	biSound   = iota
	biItems   // the node's own item total is off by arg
	biRef     // the reference to the node states a total off by arg
	biBoth    // both
	biUnder   // a non-root node holds arg keys, fewer than half the capacity
	biOver    // a node holds arg keys, more than the capacity
	biConsist // the totals of the node and all its ancestors are off by arg
	biSwap    // two children's reference totals are exchanged or shifted by arg, leaving the sum as it is
	nBadImages

	biTo = 16 // added to the above: the total is set to arg
)

func caseBadImage(w *Worker, p []int64) error {
	sh, m := pgShape(pgBases[p[0]])
	node, what, arg := int(p[1]), int(p[2]), p[3]
	type mod struct{ items, ref int64 }
	mods := map[*Shape]mod{}
	n := 0
	var path, tgt []*Shape
	var find func(s *Shape)
	find = func(s *Shape) {
		path = append(path, s)
		if n == node {
			tgt = append([]*Shape(nil), path...)
		}
		n++
		for _, k := range s.kids {
			find(k)
		}
		path = path[:len(path)-1]
	}
	find(sh)
	x := tgt[len(tgt)-1]
	isRoot := len(tgt) == 1
	if what >= biTo {
		what -= biTo
		var total func(s *Shape) int64
		total = func(s *Shape) (t int64) {
			t = int64(len(s.vals))
			for _, k := range s.kids {
				t += total(k)
			}
			return
		}
		if arg -= total(x); arg == 0 {
			return nil
		}
	}
	switch what {
	case biItems:
		mods[x] = mod{arg, 0}
	case biRef:
		if isRoot {
			return nil
		}
		mods[x] = mod{0, arg}
	case biBoth:
		if isRoot {
			return nil
		}
		mods[x] = mod{arg, arg}
	case biConsist:
		for i, y := range tgt {
			r := arg
			if i == 0 {
				r = 0
			}
			mods[y] = mod{arg, r}
		}
	case biSwap:
		if len(x.kids) < 2 {
			return nil
		}
		mods[x.kids[0]] = mod{0, arg}
		mods[x.kids[len(x.kids)-1]] = mod{0, -arg}
	case biUnder, biOver:
		if isRoot && what == biUnder {
			return nil
		}
		if x.leaf() {
			if int(arg) <= len(x.vals) {
				x.vals = x.vals[:arg]
			} else {
				last := uint64(1) << 40
				if len(x.vals) > 0 {
					last = x.vals[len(x.vals)-1].K
				}
				for i := uint64(1); len(x.vals) < int(arg); i++ {
					x.vals = append(x.vals, KV{last + i, 1})
				}
			}
		} else {
			if int(arg) <= len(x.seps) {
				x.kids, x.seps = x.kids[:arg+1], x.seps[:arg]
			} else {
				y := x
				for !y.leaf() {
					y = y.kids[len(y.kids)-1]
				}
				last := uint64(1) << 40
				if len(y.vals) > 0 {
					last = y.vals[len(y.vals)-1].K
				}
				var minimal func(depth int) *Shape
				minimal = func(depth int) *Shape {
					s := &Shape{depth: depth}
					if depth == 0 {
						s.vals = []KV{{last + 1, 1}, {last + 2, 2}}
						last += 2
						return s
					}
					for i := 0; i < 3; i++ {
						if i > 0 {
							s.seps = append(s.seps, last+1)
						}
						s.kids = append(s.kids, minimal(depth-1))
					}
					return s
				}
				for len(x.seps) < int(arg) {
					x.seps = append(x.seps, last+1)
					x.kids = append(x.kids, minimal(x.depth-1))
				}
			}
		}
		m = shapeItems(sh)
	}
	st := newStore(false)
	var rec func(s *Shape, root bool) (Loc, uint64)
	rec = func(s *Shape, root bool) (Loc, uint64) {
		r := &rawNode{root: root, leaf: s.leaf(), cap: 4, vals: s.vals, seps: s.seps}
		tot := uint64(len(s.vals))
		for _, k := range s.kids {
			l, it := rec(k, false)
			r.refs = append(r.refs, rawRef{l.Num, l.Off, l.Len, it + uint64(mods[k].ref)})
			tot += it
		}
		r.items = tot + uint64(mods[s].items)
		by := encodeNode(r, codecs[0])
		num, off, _ := st.put(by)
		return Loc{num, off, uint64(len(by))}, tot
	}
	l, _ := rec(sh, true)
	for pre := 0; pre < 3; pre++ {
		b := &BW{w: w, order: 4, cfg: cfCB, st: st, cb: &CB{st, codecs[0], false}, m: m.clone()}
		var err error
		if b.t, err = b.open(l, nil); err != nil {
			if what == biSound {
				return err
			}
			continue
		}
		if pre == 1 && what != biSound { // everything already loaded by key lookups
			for _, e := range m {
				if err := safely(func() error { _, _, e2 := b.t.GetByKey(e.K); _ = e2; return nil }); err != nil {
					return err
				}
			}
		}
		if pre == 2 {
			if err := safely(func() error { _ = b.t.Touch(); return nil }); err != nil {
				return err
			}
		}
		err = safely(b.t.Validate)
		if isPanicErr(err) {
			return fmt.Errorf("Validate: %w", err)
		}
		if what == biSound && err != nil {
			return fmt.Errorf("Validate of a sound tree: %w", err)
		}
		if what != biSound && err == nil {
			return fmt.Errorf("Validate accepts a tree with an invalid image (node %d of %v, %s %d; loaded beforehand: %v)", node, pgBases[p[0]], []string{"sound", "its item total off by", "the total in the reference to it off by", "its total and the one in the reference to it off by", "underoccupied:", "overoccupied:", "all totals above it off by", "totals of its first and last children shifted by"}[what], arg, pre)
		}
	}
	return nil
}

func init() {
	_ = os.Stdout
	kinds["fault"] = caseFault
	describe["fault"] = faultDescribe
	kinds["fault.open"] = caseFaultOpen
	kinds["fault.llrb"] = caseFaultLLRB
	kinds["damage"] = caseDamage
	kinds["badimage"] = caseBadImage
	for _, p := range []string{"C08", "C09"} {
		levels[p] = "fault_enumeration"
		assumptions[p] = []string{"keys are uint64 under a total order; callbacks that do not fail satisfy their contracts; unpack callbacks refuse short payloads"}
	}
	rules["C08"] = "every (base tree, residency, operation) is run once per callback invocation it makes, with that invocation (alone, or with all later ones) failing, and then, for the pair exploration, a second operation likewise; counted as non-trivial when every armed fault was reached"
	rules["C09"] = "every (base tree, codec, residency, operation, node, alteration of its image); counted as non-trivial when the damaged image was read by the operation; plus every hand-built invalid tree, and every count, pair of counts and link of resident trees made wrong"
	// residencies: operations executed before the faulted one
	pres := [][]int64{{}, {pVal}, {pGetM}, {pTouch}, {pPutM}, {pVal, pPutM}, {pTouch, pFlush}, {pPutM, pFlushP}, {pDelM, pFlush, pTIM}, {pVal, pDelL, pFlush, pPatM}}
	ops := append(append(append([]int64{}, pgData...), pgPaging...), pLen, pGetM, pTI0, pDiscard)
	run := func(r *Run, w *Worker, p []int64, armed int) (all bool, ok bool) {
		r.trans.Add(1)
		if !w.do("fault", p) {
			return false, false
		}
		if w.hits == armed {
			r.nontriv.Add(1)
		}
		return w.hits == armed, true
	}
	checks["C08"] = func(r *Run) {
		for n := int64(0); n < 12; n++ {
			n := n
			r.each(int(2*n+1), func(w *Worker, k int) {
				if w.do("fault.llrb", []int64{n, int64(k)}) {
					r.nontriv.Add(int64(w.hits))
				}
			})
		}
		r.each(len(pgBases)-1, func(w *Worker, b int) {
			for k := int64(0); k < 12; k++ {
				if w.do("fault.open", []int64{int64(b + 1), k}) && w.hits == 0 {
					break
				}
				r.nontriv.Add(1)
			}
		})
		faultClosures(r)
		type job struct {
			lim, base int64
			pre       []int64
			op        int64
		}
		var jobs []job
		for _, base := range pickTier(r, []int64{0, 1, 2, 8, 3, 4, 5, 7}, []int64{0, 1, 2, 8, 3, 4, 5, 6, 7, 9, 10}) {
			for _, lim := range []int64{-1, 2} {
				for _, pre := range pres {
					for _, op := range ops {
						jobs = append(jobs, job{lim, base, pre, op})
					}
				}
			}
		}
		head := func(j job, variant int64) []int64 {
			p := append([]int64{j.lim, j.base, int64(len(j.pre))}, j.pre...)
			return append(p, variant)
		}
		r.each(len(jobs), func(w *Worker, i int) {
			j := jobs[i]
			for _, all := range []int64{0, 1} {
				for _, variant := range []int64{0, 1, 2, 3} {
					for k := int64(0); !r.expired(); k++ {
						p := append(head(j, variant), j.op, k, all)
						if variant != 2 {
							p = append(p, j.op, -1, 0) // the retry
						}
						hit, ok := run(r, w, p, 1)
						if !ok {
							return
						}
						if !hit {
							break
						}
						if variant < 2 { // without a retry
							if _, ok := run(r, w, append(head(j, variant), j.op, k, all), 1); !ok {
								return
							}
						}
					}
				}
			}
			r.states.Add(1)
		})
		r.part("single faults: (base, residency, operation) combinations", int64(len(jobs)))
		// pairs: the second operation (often the retry) fails as well
		second := []int64{pFlush, pFlushP, pPrune, pPutM, pDelM, pDiscard, pTouch}
		var pj []job
		for _, base := range pickTier(r, []int64{0, 8, 3}, []int64{0, 2, 8, 3, 5, 7}) {
			for _, pre := range pickTier(r, [][]int64{{}, {pTouch, pFlush}, {pVal, pPutM}}, pres) {
				for _, op := range []int64{pPutF, pPutM, pDelF, pDelM, pDelL, pPatM, pFlush, pFlushP, pTouch, pTIM, pPrune, pDiscard} {
					pj = append(pj, job{-1, base, pre, op})
				}
			}
		}
		r.each(len(pj), func(w *Worker, i int) {
			j := pj[i]
			for k := int64(0); !r.expired(); k++ {
				more := false
				for _, op2 := range append([]int64{j.op}, second...) {
					for k2 := int64(0); !r.expired(); k2++ {
						hit := false
						for variant := int64(0); variant < 3; variant++ {
							p := append(head(j, variant), j.op, k, 0, op2, k2, 0)
							if variant == 0 {
								p = append(p, op2, -1, 0, j.op, -1, 0)
							}
							h, ok := run(r, w, p, 2)
							if !ok {
								return
							}
							hit = hit || h
							more = more || w.hits > 0 && h
						}
						if !hit {
							break
						}
					}
				}
				if !more {
					break
				}
			}
			r.states.Add(1)
		})
		r.part("fault pairs: (base, residency, operation) combinations", int64(len(pj)))
		if r.expired() && !r.stop.Load() {
			r.over("fault pairs")
		}
		r.sample("%s", faultDescribe(append(head(job{-1, 3, []int64{pTouch, pFlush}, 0}, 0), pDelM, 2, 0, pDelM, -1, 0)))
	}
	checks["C09"] = func(r *Run) {
		pgClosures(r, 9)
		exploreValMem(r)
		type job struct {
			base, codec, cached int64
			pre                 []int64
			node                int
		}
		var jobs []job
		for _, base := range pickTier(r, []int64{1, 2, 8, 3, 5, 7}, []int64{1, 2, 8, 3, 4, 5, 6, 7, 9, 10}) {
			for codec := range codecs {
				if codec == 3 && base != 8 && base != 2 {
					continue
				}
				for cached := int64(0); cached < 2; cached++ {
					for _, pre := range pickTier(r, [][]int64{{}, {pPurge}}, [][]int64{{}, {pPurge}, {pVal, pPurge}, {pGetF}, {pPutM}}) {
						sh, _ := pgShape(pgBases[base])
						for n := 0; n < sh.nodes(); n++ {
							jobs = append(jobs, job{base, int64(codec), cached, pre, n})
						}
					}
				}
			}
		}
		dops := []int64{-1, pGetF, pGetM, pGetL, pGetIM, pBisM, pPutF, pPutM, pPutL, pDelF, pDelM, pDelL, pDelIM, pPatM, pPatIL, pTouch, pTIM, pVal, pDump, pDim, pLayout, pDiscard, pFlush, pPrune}
		r.each(len(jobs), func(w *Worker, i int) {
			j := jobs[i]
			sh, m := pgShape(pgBases[j.base])
			_ = m
			st := newStore(false)
			writeShape(st, sh, 4, codecs[j.codec])
			l := imageNodes(sh)[j.node]
			by := st.objs[l].copy
			raw, err := decodeNode(by, codecs[j.codec])
			if err != nil {
				r.violate(Case{"damage", nil}, err)
				return
			}
			cnt := int64(len(raw.vals) + len(raw.refs))
			var alts [][2]int64
			for x := 0; x < len(by); x++ {
				if r.quick() && len(by) > 120 && x > 60 && x < len(by)-40 && x%7 != 0 {
					continue
				}
				alts = append(alts, [2]int64{altTrunc, int64(x)})
			}
			for _, x := range []int64{1, 2, 7, 8, 9, 16, 32, 40, 100} {
				alts = append(alts, [2]int64{altExtend, x}, [2]int64{altZeros, x})
			}
			for _, x := range []int64{0, 1, cnt - 2, cnt - 1, cnt + 1, cnt + 2, 2 * cnt, 255, 256, 1 << 32, 1<<32 + cnt, 1 << 62, 1<<63 - 1, -1 << 63, -1, 1<<56 + cnt} {
				if x != cnt {
					alts = append(alts, [2]int64{altCount, x})
				}
			}
			for _, a := range alts {
				for _, op := range dops {
					if r.expired() {
						return
					}
					p := append([]int64{j.base, j.codec, j.cached, int64(len(j.pre))}, j.pre...)
					p = append(p, int64(j.node), a[0], a[1], op)
					r.trans.Add(1)
					if !w.do("damage", p) {
						return
					}
					r.nontriv.Add(int64(w.hits))
				}
			}
			r.states.Add(1)
		})
		r.part("damaged nodes (base, codec, cache, residency, node)", int64(len(jobs)))
		var bj [][]int64
		for b := int64(1); b < int64(len(pgBases)); b++ {
			sh, _ := pgShape(pgBases[b])
			bj = append(bj, []int64{b, 0, biSound, 0})
			var n int64
			sh.each(func(s *Shape, root bool) {
				for _, d := range []int64{1, -1, 2, 5, 1 << 32, -1 << 62} {
					for _, what := range []int64{biItems, biRef, biBoth, biConsist, biSwap} {
						bj = append(bj, []int64{b, n, what, d})
					}
				}
				for _, d := range []int64{0, 1, 4, -1} {
					for _, what := range []int64{biItems, biRef, biBoth, biConsist} {
						bj = append(bj, []int64{b, n, what + biTo, d})
					}
				}
				lo := int64(0)
				if !s.leaf() {
					lo = 0
				}
				for k := lo; k < 2; k++ {
					bj = append(bj, []int64{b, n, biUnder, k})
				}
				for k := int64(5); k < 9; k++ {
					bj = append(bj, []int64{b, n, biOver, k})
				}
				n++
			})
		}
		r.each(len(bj), func(w *Worker, i int) {
			r.trans.Add(1)
			if w.do("badimage", bj[i]) {
				r.nontriv.Add(1)
			}
		})
		r.part("hand-built invalid trees", int64(len(bj)))
		r.sample("three-level tree, node 4 truncated to 17 bytes, Delete(middle) must fail and then succeed once the image is whole")
	}
}
