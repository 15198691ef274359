package main

import (
	"fmt"
	"strings"
)

// Closure exploration: a fixed universe of keys and an alphabet holding every map
// operation (reads included). The reachable states - the whole object graph behind the
// map together with the reference content - are enumerated until no operation leads to
// a new one, so that every history over this universe, of any length, is covered; in
// particular state hidden from the operations' results (lookup caches, cursors) is part
// of what is enumerated.

// seqKey is the i-th key of a universe of n.
func seqKey(i int) uint64 { return uint64(i+1) * 10 }

// seqOps is the alphabet over n keys. Key special may hold two values, all others one.
func seqOps(n int, special map[int]bool, llrb bool) [][3]int64 {
	var ops [][3]int64
	for i := 0; i < n; i++ {
		k := int64(seqKey(i))
		ops = append(ops, [3]int64{oGet, k, 0}, [3]int64{oBisL, k, 0}, [3]int64{oBisR, k, 0},
			[3]int64{oDel, k, 0}, [3]int64{oPut, k, int64(100 * i)},
			[3]int64{oGetI, int64(i), 0}, [3]int64{oDelI, int64(i), 0})
		if special[i] {
			ops = append(ops, [3]int64{oPut, k, int64(200 + i)}, [3]int64{oPat, k, int64(100 * i)}, [3]int64{oPat, k, int64(200 + i)})
		}
	}
	for i := -1; i <= n; i++ {
		ops = append(ops, [3]int64{oGetI, int64(i), 0})
	}
	ops = append(ops, [3]int64{oGet, 1, 0}, [3]int64{oGet, int64(10*n + 5), 0}, [3]int64{oBisL, 5, 0}, [3]int64{oBisR, int64(10*n + 5), 0},
		[3]int64{oDelI, -1, 0}, [3]int64{oPatI, -1, 1}, [3]int64{oLen, 0, 0}, [3]int64{xValidate, 0, 0})
	if llrb {
		ops = append(ops, [3]int64{-1, 0, 0})
	}
	return ops
}

// patIdxOps patches the special keys by index, where they are.
func patIdxOps(m Model, special map[int]bool) [][3]int64 {
	var ops [][3]int64
	for i, e := range m {
		j := int(e.K/10) - 1
		if special[j] {
			ops = append(ops, [3]int64{oPatI, int64(i), int64(100 + j)}, [3]int64{oPatI, int64(i), int64(200 + j)})
		}
	}
	return append(ops, [3]int64{oPatI, int64(len(m)), 1}, [3]int64{oDelI, int64(len(m)), 1}, [3]int64{oGetI, int64(len(m)), 1})
}

// seqWorld is a map with its reference.
type seqWorld struct {
	l *llrbWorld
	b *BW
}

func startSeq(w *Worker, p []int64) (*seqWorld, error) {
	if p[0] == 0 {
		s := &seqWorld{l: newLLRBWorld()}
		return s, replayLLRB(s.l, p[2:])
	}
	s := &seqWorld{b: newBW(w, uint64(p[0]), int(p[1]), codecs[0])}
	return s, s.b.replay(p[2:])
}

func (s *seqWorld) apply(o [3]int64) error {
	if s.l != nil {
		return replayLLRB(s.l, o[:])
	}
	return s.b.replay(o[:])
}

func (s *seqWorld) model() Model {
	if s.l != nil {
		return s.l.m
	}
	return s.b.m
}

func (s *seqWorld) key() string {
	var f uint64
	if s.l != nil {
		f = fingerprint(nil, s.l.t)
	} else {
		f = fingerprint(nil, s.b.t)
	}
	var sb strings.Builder
	for _, e := range s.model() {
		fmt.Fprintf(&sb, "%d:%d ", e.K, e.V)
	}
	return fmt.Sprintf("%x %s", f, sb.String())
}

// p = [order or 0 for LLRB, configuration, hist...]
func caseSeq(w *Worker, p []int64) error {
	_, err := startSeq(w, p)
	return err
}

func seqStr(p []int64) string {
	if p[0] == 0 {
		return "LLRB: " + histStr(p[2:])
	}
	return fmt.Sprintf("b+tree of capacity %d: %s", p[0], histStr(p[2:]))
}

// closure explores all histories over n keys.
func closure(r *Run, order, cfg, n int, special map[int]bool, maxStates int) {
	name := fmt.Sprintf("closure over %d keys, capacity %d", n, order)
	if order == 0 {
		name = fmt.Sprintf("closure over %d keys, LLRB", n)
	}
	ops := seqOps(n, special, order == 0)
	r.bfs(name, []bfsState{{[]int64{int64(order), int64(cfg)}, ""}}, maxStates, 1, func(wk *Worker, s bfsState, emit func([]int64, string, string)) {
		var sw *seqWorld
		var base string
		h := append([]int64(nil), s.hist...)
		fresh := func() error {
			h = append(h[:0], s.hist...)
			wk.begin("seq", h)
			wk.q.Reset()
			return safely(func() (e error) { sw, e = startSeq(wk, s.hist); return })
		}
		if err := fresh(); err != nil {
			r.violate(Case{"seq", s.hist}, err)
			return
		}
		base = sw.key()
		all := append(append([][3]int64(nil), ops...), patIdxOps(sw.model(), special)...)
		for i, o := range all {
			if r.expired() {
				return
			}
			if sw == nil {
				if err := fresh(); err != nil {
					r.violate(Case{"seq", s.hist}, err)
					return
				}
			}
			h = append(h, o[0], o[1], o[2])
			wk.begin("seq", h)
			r.trans.Add(1)
			err := safely(func() error { return sw.apply(o) })
			if err != nil {
				r.violate(Case{"seq", append([]int64(nil), h...)}, err)
				return
			}
			if k := sw.key(); k != base {
				emit(h, k, "")
				sw = nil
			}
			_ = i
		}
		r.evals.Add(1)
	})
}

func init() {
	kinds["seq"] = caseSeq
	describe["seq"] = seqStr
}
