package main

import "fmt"

// Residency (C18): which nodes are in memory, as seen from the storage callbacks. The
// reference keeps the set of locations whose node is resident: those fetched or written
// since the last operation that must have released them.

type residency struct {
	in      map[Loc]bool // known to be resident
	fetched []Loc        // by the current operation
	unknown bool         // an operation failed half way
	err     error
}

func (t *PT) watch() {
	t.res = &residency{in: map[Loc]bool{}}
	for _, l := range t.opened {
		t.res.in[l] = true
	}
	t.st.onGet = func(l Loc) {
		rs := t.res
		if rs.in[l] && rs.err == nil {
			rs.err = fmt.Errorf("GetNode(%v) though that node is resident", l)
		}
		rs.in[l] = true
		rs.fetched = append(rs.fetched, l)
	}
	t.st.after = func(kind int, l Loc) {
		if kind == cbPut {
			t.res.in[l] = true
		} else {
			delete(t.res.in, l)
		}
	}
}

// residStep executes one operation; height is that of the tree before it, or 0 if not known.
func (x *PW) residStep(o int64, height int) error {
	t := x.trees[o/100]
	code := int(o % 100)
	if t.dead {
		return nil
	}
	rs := t.res
	rs.fetched = rs.fetched[:0]
	n, dirty := len(t.m), t.dirty
	was := map[Loc]bool{}
	if code == pLayout {
		for l := range rs.in {
			was[l] = true
		}
	}
	if err := x.op1(t, code); err != nil {
		return err
	}
	if err := x.drain(); err != nil {
		return err
	}
	if rs.err != nil {
		return rs.err
	}
	f := len(rs.fetched)
	limit := -1
	switch code {
	case pLen:
		limit = 1
	case pFlush, pFlushP, pPurge, pPurgeT, pPrune:
		limit = 0
	}
	if height > 0 {
		switch code {
		case pPutF, pPutM, pPutL, pPatM, pPatIL, pGetF, pGetM, pGetL, pGetIM, pTI0, pTIM, pDim, pGetA, pPatA, pPutD:
			limit = height
		case pBisM:
			limit = height // the second search finds everything resident
		case pDelF, pDelM, pDelL, pDelIM, pDelA:
			limit = height + 2*(height-1)
		}
	}
	if limit >= 0 && f > limit {
		return fmt.Errorf("%s in a tree of height %d fetched %d nodes (%v), at most %d are on its way", pNames[code], height, f, rs.fetched, limit)
	}
	switch code {
	case pFlushP, pPurge:
		rs.in, rs.unknown = map[Loc]bool{}, false
	case pPurgeT:
		if dirty || t.maybe {
			rs.unknown = true // refused: what it released before is not specified
			rs.in = map[Loc]bool{}
		} else {
			rs.in, rs.unknown = map[Loc]bool{}, false
		}
	case pLayout:
		rs.in = was
	}
	_ = n
	return x.bad()
}

// pgFinalResid: visiting every item fetches exactly the nodes that are not resident.
func pgFinalResid(x *PW, variant int) error {
	for _, t := range x.trees {
		if t.dead || t.res.unknown {
			continue
		}
		rs := t.res
		rs.fetched = nil
		if err := x.op1(t, pFlush); err != nil {
			return err
		}
		if len(rs.fetched) > 0 {
			return fmt.Errorf("Flush fetched %v", rs.fetched)
		}
		s, _, err := decodeTree(t.st, t.c, t.cb.c)
		if err != nil {
			return err
		}
		locs := s.locs(nil)
		want := 0
		for l := range locs {
			if !rs.in[l] {
				want++
			}
		}
		walk := func() error {
			if err := exec(t.t, &t.m, oGet, 5, 0); err != nil {
				return err
			}
			for i := range t.m {
				if err := exec(t.t, &t.m, oGetI, uint64(i), 0); err != nil {
					return err
				}
			}
			return rs.err
		}
		if err := walk(); err != nil {
			return err
		}
		if got := len(rs.fetched); got != want {
			return fmt.Errorf("of the %d nodes %d should be resident, but visiting every item fetched %d", len(locs), len(locs)-want, got)
		}
		rs.fetched = nil
		if err := walk(); err != nil {
			return err
		}
		if len(rs.fetched) > 0 {
			return fmt.Errorf("visiting every item again fetched %v", rs.fetched)
		}
		// what is released is not kept in memory
		if len(t.m) >= 8 { // (a node merged into the root may linger)
			if n := boxes(t.t); n < 2*len(t.m) {
				return fmt.Errorf("(harness) %d keys and values found in memory, %d are there", n, 2*len(t.m))
			}
			how := "Flush(true)"
			if variant == 0 {
				err = x.op1(t, pFlushP)
			} else {
				how = "Purge(false)"
				err = x.op1(t, pPurge)
			}
			if err != nil {
				return err
			}
			if n := boxes(t.t); n >= 2*len(t.m) && len(x.trees) == 1 {
				return fmt.Errorf("the keys and values (%d) of %d items are still in memory after %s", n, len(t.m), how)
			}
		}
		// a reopened tree is fetched as it is used
		g := t.st.gets
		t.st.onGet = nil
		y, err := t.fork(t.c, t.m)
		if err != nil {
			return err
		}
		if d := t.st.gets - g; d > 1 {
			return fmt.Errorf("OldBPlusTree fetched %d nodes", d)
		}
		y.st.gets = 0
		if len(t.m) > 0 {
			i := (len(t.m) * (variant + 1)) / 3
			if i >= len(t.m) {
				i = len(t.m) - 1
			}
			if err := exec(y.t, &y.m, oGet, t.m[i].K, 0); err != nil {
				return err
			}
			if y.st.gets > s.depth+1 {
				return fmt.Errorf("looking up one item of a reopened tree of height %d fetched %d nodes", s.depth+1, y.st.gets)
			}
		}
	}
	return x.bad()
}
