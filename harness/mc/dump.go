package main

import (
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"

	sm "github.com/NVIDIA/sortedmap"
)

// Dump (C19): what it prints, against the reference content. Keys and values are
// rendered by the callbacks as unmistakable tokens, so that the surrounding format
// does not matter.

var dumpMu sync.Mutex
var dumpFile *os.File

// captured runs f with the standard output redirected and returns what was printed.
func captured(f func() error) (s string, err error) {
	dumpMu.Lock()
	defer dumpMu.Unlock()
	if dumpFile == nil {
		if dumpFile, err = os.CreateTemp("", "mcdump"); err != nil {
			return
		}
		os.Remove(dumpFile.Name())
	}
	if err = dumpFile.Truncate(0); err != nil {
		return
	}
	if _, err = dumpFile.Seek(0, 0); err != nil {
		return
	}
	save := os.Stdout
	os.Stdout = dumpFile
	err = safely(f)
	os.Stdout = save
	if err != nil {
		return "", fmt.Errorf("Dump: %w", err)
	}
	if _, err = dumpFile.Seek(0, 0); err != nil {
		return
	}
	b, err := io.ReadAll(dumpFile)
	return string(b), err
}

var dumpTok = regexp.MustCompile(`<([KV])(\d+)>`)

type dumpT struct {
	key bool
	x   uint64
}

func dumpTokens(s string) (out []dumpT) {
	for _, m := range dumpTok.FindAllStringSubmatch(s, -1) {
		x, _ := strconv.ParseUint(m[2], 10, 64)
		out = append(out, dumpT{m[1] == "K", x})
	}
	return
}

// llrbDump p=hist
func caseLLRBDump(_ *Worker, p []int64) error {
	w := newLLRBWorld()
	if err := replayLLRB(w, p); err != nil {
		return err
	}
	s, err := captured(w.t.Dump)
	if err != nil {
		return err
	}
	seen := map[uint64]int{}
	for _, t := range dumpTokens(s) {
		if !t.key {
			return fmt.Errorf("Dump shows value %d", t.x)
		}
		if _, ok := w.m.find(t.x); !ok {
			return fmt.Errorf("Dump shows key %d, which is not there: %v", t.x, w.m)
		}
		seen[t.x]++
	}
	for _, e := range w.m {
		if seen[e.K] < 2 {
			return fmt.Errorf("Dump shows key %d %d times, of %v", e.K, seen[e.K], w.m)
		}
	}
	// the drawing has one line per key, in descending order
	var drawn []uint64
	flat := 0
	for _, l := range strings.Split(s, "\n") {
		ts := dumpTokens(l)
		switch {
		case strings.Contains(l, "Node Key"):
			flat++
			if len(ts) == 0 {
				return fmt.Errorf("Dump line %q shows no key", l)
			}
		case len(ts) == 1:
			drawn = append(drawn, ts[0].x)
		case len(ts) > 1:
			return fmt.Errorf("Dump line %q", l)
		}
	}
	if flat != len(w.m) || len(drawn) != len(w.m) {
		return fmt.Errorf("Dump lists %d and draws %d nodes for %d items", flat, len(drawn), len(w.m))
	}
	for i, k := range drawn {
		if k != w.m[len(w.m)-1-i].K {
			return fmt.Errorf("Dump draws %v for %v", drawn, w.m)
		}
	}
	return checkLight(w.t, &w.m)
}

// dumpBT checks one dump of a B+Tree against its reference.
func dumpBT(b *BW, seps map[uint64]bool) error {
	puts := b.st.puts
	s, err := captured(b.t.Dump)
	if err != nil {
		return err
	}
	if b.st.puts != puts {
		return fmt.Errorf("Dump wrote nodes")
	}
	i := 0
	var last uint64
	have := false
	for _, t := range dumpTokens(s) {
		if t.key {
			last, have = t.x, true
			if _, ok := b.m.find(t.x); !ok && seps != nil && !seps[t.x] {
				return fmt.Errorf("Dump shows key %d, which is neither there nor a separator: %v", t.x, b.m)
			}
			continue
		}
		if i >= len(b.m) || !have || last != b.m[i].K || t.x != b.m[i].V {
			return fmt.Errorf("item %d in Dump is %d:%d, content %v", i, last, t.x, b.m)
		}
		have = false
		i++
	}
	if i != len(b.m) {
		return fmt.Errorf("Dump shows %d of %d items: %v", i, len(b.m), b.m)
	}
	return nil
}

// btDump p=[order, hist...]
func caseBTDump(w *Worker, p []int64) error {
	for _, cfg := range []int{cfCB, cfCB | cfCache} {
		b, err := startBW(w, p, cfg, codecs[0])
		if err != nil {
			return err
		}
		if err := dumpBT(b, nil); err != nil { // as it is
			return err
		}
		sh, err := b.shape()
		if err != nil {
			return err
		}
		seps := map[uint64]bool{}
		for _, k := range sh.allSeps(nil) {
			seps[k] = true
		}
		if err := dumpBT(b, seps); err != nil { // flushed
			return fmt.Errorf("flushed: %w", err)
		}
		if err := b.flush(true); err != nil {
			return err
		}
		if err := dumpBT(b, seps); err != nil { // nothing resident
			return fmt.Errorf("flushed and purged: %w", err)
		}
		y, err := b.fork(b.loc, b.m)
		if err != nil {
			return err
		}
		if err := dumpBT(y, seps); err != nil {
			return fmt.Errorf("reopened: %w", err)
		}
		if err := b.drain(); err != nil {
			return err
		}
		if err := checkLight(b.t, &b.m); err != nil {
			return err
		}
		if b.st.bad != nil {
			return b.st.bad
		}
	}
	return nil
}

// oddCB renders values of any type; nothing is ever packed.
type oddCB struct{ *CB }

var oddVals = []sm.Value{nil, "", 0, (*int)(nil), []byte(nil), struct{}{}, false, uint64(7)}

func (oddCB) DumpValue(v sm.Value) (string, error) {
	for i, x := range oddVals {
		if fmt.Sprintf("%T%v", x, x) == fmt.Sprintf("%T%v", v, v) {
			return fmt.Sprintf("<V%d>", i), nil
		}
	}
	return "<V999>", nil
}

func (oddCB) PackValue(v sm.Value) ([]byte, error) {
	for i, x := range oddVals {
		if fmt.Sprintf("%T%v", x, x) == fmt.Sprintf("%T%v", v, v) {
			return []byte{byte(i)}, nil
		}
	}
	return nil, errFault
}

func (oddCB) UnpackValue(b []byte) (sm.Value, uint64, error) {
	if len(b) == 0 || int(b[0]) >= len(oddVals) {
		return nil, 0, errFault
	}
	return oddVals[b[0]], 1, nil
}

// oddDump p=[order, n, offset, stride]: values of every kind, nil included.
func caseOddDump(w *Worker, p []int64) error {
	n := int(p[1])
	st := newStore(false)
	cb := oddCB{&CB{st, codecs[0], false}}
	t := sm.NewBPlusTree(uint64(p[0]), cmpU64, cb, nil)
	var want []int
	for i := 0; i < n; i++ {
		v := (int(p[2]) + i*int(p[3])) % len(oddVals)
		want = append(want, v)
		if ok, err := t.Put(uint64(10*i+5), oddVals[v]); err != nil || !ok {
			return fmt.Errorf("Put = %v, %v", ok, err)
		}
	}
	ck := func(t sm.BPlusTree, what string) error {
		s, err := captured(t.Dump)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		i := 0
		var last uint64
		have := false
		for _, k := range dumpTokens(s) {
			if k.key {
				last, have = k.x, true
				continue
			}
			if i >= n || !have || last != uint64(10*i+5) || int(k.x) != want[i] {
				return fmt.Errorf("%s: item %d in Dump is %d:%d; values are %v of %#v", what, i, last, k.x, want, oddVals)
			}
			have = false
			i++
		}
		if i != n {
			return fmt.Errorf("%s: Dump shows %d of %d items; values are %v of %#v", what, i, n, want, oddVals)
		}
		return nil
	}
	if err := ck(t, "as built"); err != nil {
		return err
	}
	num, off, ln, err := t.Flush(true)
	if err != nil {
		return err
	}
	if err := ck(t, "flushed and purged"); err != nil {
		return err
	}
	u, err := sm.OldBPlusTree(num, off, ln, cmpU64, cb, nil)
	if err != nil {
		return err
	}
	return ck(u, "reopened")
}

// large histories: [which, pattern, n, delete pattern, order]
func caseDumpLarge(w *Worker, p []int64) error {
	which, pat, n, del := p[0], int(p[1]), int(p[2]), int(p[3])
	var h []int64
	for i, k := range patternKeys(pat, n) {
		h = append(h, oPut, int64(k), int64(i))
	}
	for j, i := range delOrder(del, n) {
		if j >= n/2 || del < 0 {
			break
		}
		h = append(h, oDelI, int64(i), 0)
	}
	if which == 0 {
		return caseLLRBDump(w, h)
	}
	return caseBTDump(w, append([]int64{p[4]}, h...))
}

func init() {
	kinds["llrb.dump"] = caseLLRBDump
	kinds["bt.dump"] = caseBTDump
	kinds["dump.odd"] = caseOddDump
	kinds["dump.large"] = caseDumpLarge
	describe["llrb.dump"] = histStr
	describe["bt.dump"] = btHistStr
	levels["C19"] = "model_checking"
	assumptions["C19"] = []string{"DumpKey and DumpValue render keys and values as the client's callbacks say; the surrounding text is not specified"}
	checks["C19"] = func(r *Run) {
		exploreLLRB(r, pickTier(r, 14, 20), 400000, []string{"llrb.dump"}, nil)
		exploreBT(r, 4, pickTier(r, 10, 14), 400000, 1, []string{"bt.dump"}, nil)
		exploreBT(r, 6, pickTier(r, 9, 13), 400000, 1, []string{"bt.dump"}, nil)
		sp := imageSpecs(2, 5)
		sp = append(sp, imageSpecs(3, 2)...)
		r.each(len(sp), func(w *Worker, i int) {
			w.do("bt.dump", append([]int64{4, imageStart, int64(len(sp[i]))}, sp[i]...))
			r.states.Add(1)
			r.trans.Add(1)
		})
		var od [][]int64
		for _, o := range []int64{4, 6, 100} {
			for n := int64(0); n <= 24; n++ {
				for a := int64(0); a < int64(len(oddVals)); a++ {
					for _, b := range []int64{0, 1, 3} {
						od = append(od, []int64{o, n, a, b})
					}
				}
			}
		}
		r.each(len(od), func(w *Worker, i int) {
			w.do("dump.odd", od[i])
			r.trans.Add(od[i][1])
		})
		r.part("trees with nil and other unusual values", int64(len(od)))
		var cs [][]int64
		for _, n := range []int{30, 120} {
			for pat := 0; pat < nPatterns; pat++ {
				for d := 0; d < nDelPatterns; d++ {
					cs = append(cs, []int64{0, int64(pat), int64(n), int64(d), 0})
					for _, o := range []int64{4, 8, 32} {
						cs = append(cs, []int64{1, int64(pat), int64(n), int64(d), o})
					}
				}
			}
		}
		for _, n := range []int{600, 1500} {
			for _, o := range []int64{4, 200, 2000} {
				cs = append(cs, []int64{1, 5, int64(n), 3, o}, []int64{1, 0, int64(n), 1, o})
			}
			cs = append(cs, []int64{0, 5, int64(n), 3, 0})
		}
		cs = append(cs, []int64{1, 0, 70000, -1, 140000}, []int64{1, 0, 70000, -1, 100}, []int64{0, 4, 70000, -1, 0})
		r.each(len(cs), func(w *Worker, i int) {
			w.do("dump.large", cs[i])
			r.trans.Add(cs[i][2])
		})
		r.part("large dumps", int64(len(cs)))
		pgClosures(r, 19)
		r.sample("Dump of every LLRB and capacity-4 shape, e.g. after %s", histStr([]int64{oPut, 100, 1, oPut, 50, 2, oDelI, 0, 0}))
	}
}
