package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	sm "github.com/NVIDIA/sortedmap"
	"github.com/NVIDIA/sortedmap/verifsync"
)

// Controlled concurrency: depth-first search over the schedules of a few threads with
// a bound on preemptions, race detector on, results checked for linearizability.

// tcall is one call by a thread, with its recorded result.
type tcall struct {
	th         int
	tree       int
	code       int
	a, v       uint64
	run        func(c *tcall)
	r          opRes
	err        error
	loc        Loc
	n          uint64
	rep        string // a report, in full
	start, end int
}

// schedule runs the threads' calls under the prefix. It returns the choices made.
func (w *Worker) schedule(threads [][]*tcall, bg []func(), prefix []int8) ([]verifsync.Choice, error) {
	races := raceErrors()
	verifsync.Begin(prefix, 20000)
	for _, cs := range threads {
		cs := cs
		verifsync.Spawn(func() {
			for _, c := range cs {
				c.start = verifsync.Tick()
				c.run(c)
				c.end = verifsync.Tick()
			}
		})
	}
	for _, f := range bg {
		verifsync.Spawn(f)
	}
	o := verifsync.Run()
	tr := verifsync.Trace()
	switch o {
	case verifsync.Deadlock:
		return tr, fmt.Errorf("deadlock: every remaining thread waits for a lock")
	case verifsync.Livelock:
		return tr, fmt.Errorf("no termination: more than 20000 scheduling steps")
	case verifsync.Panicked:
		return tr, fmt.Errorf("%s", verifsync.PanicMsg())
	case verifsync.Diverged:
		return tr, errDiverged
	}
	if n := raceErrors() - races; n > 0 {
		return tr, fmt.Errorf("data race (%d reports)%s", n, raceText())
	}
	return tr, nil
}

var errDiverged = fmt.Errorf("schedule diverged")

func raceText() string {
	dir := ""
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			dir = strings.TrimPrefix(kv, "log_path=")
		}
	}
	if dir == "" {
		return ""
	}
	fs, _ := filepath.Glob(dir + ".*")
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if len(b) > 2500 {
			b = b[:2500]
		}
		return ":\n" + string(b)
	}
	return ""
}

// exploreSchedules runs kind's scenario under every schedule with at most bound
// preemptions. The scenario's case is head + [-1, prefix...].
func (w *Worker) exploreSchedules(kind string, head []int64, bound int, run func(prefix []int8) ([]verifsync.Choice, error)) bool {
	r := w.r
	for all := 0; all < 2; all++ {
		type item struct {
			prefix []int8
			cost   int
		}
		stack := []item{{}}
		broke := false
		n := int64(0)
		for len(stack) > 0 {
			if r.expired() {
				return false
			}
			it := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			p := append(append([]int64(nil), head...), -1, int64(all))
			for _, c := range it.prefix {
				p = append(p, int64(c))
			}
			w.begin(kind, p)
			w.q.Reset()
			verifsync.Track(true, all == 1)
			var tr []verifsync.Choice
			err := safely(func() (e error) { tr, e = run(it.prefix); return })
			broke = broke || verifsync.GuardBroke()
			verifsync.Track(false, false)
			if err == nil && w.q.Panic != "" {
				err = fmt.Errorf("%s", w.q.Panic)
			}
			n++
			r.evals.Add(1)
			if err == errDiverged {
				r.part("schedules that diverged", 1)
				r.exhaustive.Store(false)
				continue
			}
			if err != nil {
				r.violate(Case{kind, p}, fmt.Errorf("schedule %v: %w", it.prefix, err))
				return false
			}
			r.trans.Add(int64(len(tr) - len(it.prefix)))
			cost := it.cost
			for i := len(it.prefix); i < len(tr); i++ {
				c := tr[i]
				for t := int8(0); c.Mask>>uint(t) != 0; t++ {
					if c.Mask&(1<<uint(t)) == 0 || t == c.Chosen {
						continue
					}
					k := cost
					if c.Cur >= 0 && t != c.Cur {
						k++
					}
					if k > bound {
						continue
					}
					np := make([]int8, i+1)
					for j := 0; j < i; j++ {
						np[j] = tr[j].Chosen
					}
					np[i] = t
					stack = append(stack, item{np, k})
				}
			}
		}
		r.part("schedules", n)
		if n > 1 {
			r.nontriv.Add(1)
		}
		if !broke {
			break
		}
		r.part("scenarios repeated with every lock acquisition a scheduling point", 1)
	}
	r.states.Add(1)
	return true
}

// linearize searches for a sequential order of the calls consistent with real time:
// step applies a call to a copy of the state and tells whether the result fits.
func linearize[S any](calls []*tcall, s S, step func(s S, c *tcall) (S, bool), final func(s S) bool) bool {
	done := make([]bool, len(calls))
	var rec func(s S, left int) bool
	rec = func(s S, left int) bool {
		if left == 0 {
			return final(s)
		}
		for i, c := range calls {
			if done[i] {
				continue
			}
			first := true
			for j, d := range calls {
				if !done[j] && j != i && d.end < c.start {
					first = false
				}
			}
			if !first {
				continue
			}
			if ns, ok := step(s, c); ok {
				done[i] = true
				if rec(ns, left-1) {
					return true
				}
				done[i] = false
			}
		}
		return false
	}
	return rec(s, len(calls))
}

func callsStr(threads [][]*tcall, name func(c *tcall) string) string {
	s := ""
	for i, cs := range threads {
		for _, c := range cs {
			s += fmt.Sprintf("\n  thread %d [%d,%d] %s -> %+v loc=%v n=%d err=%v", i, c.start, c.end, name(c), c.r, c.loc, c.n, c.err)
		}
	}
	return s
}

// ---------------------------------------------------------------- C14: LLRB

const (
	lReset = nMapOps + iota
	lDump
	lValidate
)

// LLRB calls: code, argument selector.
var llrbCalls = [][2]int64{{oGet, 1}, {oGet, 9}, {oGetI, 0}, {oGetI, 1}, {oPut, 9}, {oPut, 1}, {oPut, 0}, {oDel, 1}, {oDel, 3}, {oDelI, 0}, {oDelI, 1}, {oPat, 1}, {oPatI, 1}, {oBisL, 9}, {oBisR, 3}, {oLen, 0}, {lReset, 0}, {lDump, 0}, {lValidate, 0}}

func llrbArg(code, sel int64) uint64 {
	switch code {
	case oGetI, oDelI, oPatI:
		return uint64(sel)
	}
	return uint64(sel) * 10
}

func llrbCallName(c *tcall) string {
	switch c.code {
	case lReset:
		return "Reset()"
	case lDump:
		return "Dump()"
	case lValidate:
		return "Validate()"
	}
	return opStr(c.code, c.a, c.v)
}

// concLLRB p = [n, nthreads, (ncalls, call index...)...].
func concLLRB(w *Worker, p []int64, prefix []int8) ([]verifsync.Choice, error) {
	t := sm.NewLLRBTree(cmpU64, &dumpFault{k: -1})
	var m Model
	for i := int64(0); i < p[0]; i++ {
		if err := exec(t, &m, oPut, uint64(i*10), uint64(i)); err != nil {
			return nil, err
		}
	}
	var threads [][]*tcall
	var calls []*tcall
	q := p[2:]
	for i := int64(0); i < p[1]; i++ {
		var cs []*tcall
		for _, x := range q[1 : 1+q[0]] {
			d := llrbCalls[x]
			c := &tcall{th: int(i), code: int(d[0]), a: llrbArg(d[0], d[1]), v: uint64(1000 + 10*i + int64(len(cs)))}
			switch c.code {
			case lReset:
				c.run = func(c *tcall) { t.Reset() }
			case lDump:
				c.run = func(c *tcall) { c.err = t.Dump() }
			case lValidate:
				c.run = func(c *tcall) { c.err = t.Validate() }
			default:
				c.run = func(c *tcall) { c.r, c.err = callOp(t, c.code, c.a, c.v) }
			}
			cs = append(cs, c)
			calls = append(calls, c)
		}
		q = q[1+q[0]:]
		threads = append(threads, cs)
	}
	tr, err := w.schedule(threads, nil, prefix)
	if err != nil {
		return tr, err
	}
	// what is there now
	var fin Model
	for i := 0; ; i++ {
		var r opRes
		if err := safely(func() (e error) { r, e = callOp(t, oGetI, uint64(i), 0); return }); err != nil {
			return tr, err
		}
		if !r.ok {
			break
		}
		fin = append(fin, KV{r.k, r.v})
	}
	ok := linearize(calls, m, func(s Model, c *tcall) (Model, bool) {
		if c.err != nil {
			return s, false
		}
		switch c.code {
		case lReset:
			return nil, true
		case lDump, lValidate:
			return s, true
		}
		n := s.clone()
		want := modelOp(&n, c.code, c.a, c.v)
		return n, want == c.r
	}, func(s Model) bool { return s.equal(fin) })
	if !ok {
		return tr, fmt.Errorf("no sequential order of the calls on %v explains the results and the final content %v:%s", m, fin, callsStr(threads, llrbCallName))
	}
	if err := validate(t); err != nil {
		return tr, err
	}
	return tr, checkLight(t, &fin)
}

// concLLRB2 p = [n, 2, (ncalls, call index...)...]: thread i alone uses tree i, which must
// behave as if the other were not there.
func concLLRB2(w *Worker, p []int64, prefix []int8) ([]verifsync.Choice, error) {
	var threads [][]*tcall
	var trees []sm.LLRBTree
	ms := make([]Model, 2)
	q := p[2:]
	for i := 0; i < 2; i++ {
		t := sm.NewLLRBTree(cmpU64, &dumpFault{k: -1})
		trees = append(trees, t)
		for k := int64(0); k < p[0]; k++ {
			if err := exec(t, &ms[i], oPut, uint64(k*10), uint64(k)); err != nil {
				return nil, err
			}
		}
		var cs []*tcall
		for _, x := range q[1 : 1+q[0]] {
			d := llrbCalls[x]
			c := &tcall{th: i, code: int(d[0]), a: llrbArg(d[0], d[1]), v: uint64(1000 + 10*i + len(cs))}
			switch c.code {
			case lReset:
				c.run = func(c *tcall) { t.Reset() }
			case lDump:
				c.run = func(c *tcall) { c.err = t.Dump() }
			case lValidate:
				c.run = func(c *tcall) { c.err = t.Validate() }
			default:
				c.run = func(c *tcall) { c.r, c.err = callOp(t, c.code, c.a, c.v) }
			}
			cs = append(cs, c)
		}
		q = q[1+q[0]:]
		threads = append(threads, cs)
	}
	tr, err := w.schedule(threads, nil, prefix)
	if err != nil {
		return tr, err
	}
	for i, cs := range threads {
		for _, c := range cs {
			if c.err != nil {
				return tr, fmt.Errorf("tree %d: %s: %w", i, llrbCallName(c), c.err)
			}
			switch c.code {
			case lReset:
				ms[i] = nil
			case lDump, lValidate:
			default:
				if want := modelOp(&ms[i], c.code, c.a, c.v); want != c.r {
					return tr, fmt.Errorf("tree %d, used by one goroutine only: %s got %+v, want %+v", i, llrbCallName(c), c.r, want)
				}
			}
		}
		if err := validate(trees[i]); err != nil {
			return tr, err
		}
		if err := checkLight(trees[i], &ms[i]); err != nil {
			return tr, err
		}
	}
	return tr, nil
}

// ---------------------------------------------------------------- C15, C16: B+Tree

const (
	kFetchLoc = 60 + iota
	kGetIL    // last index
	kGetIN    // the index after the last
	kDelIL
	kDelIN
	kPatIN
	kStats
	kLim00
	kLim12
	kLimBig
)

var ccNames = map[int]string{kFetchLoc: "FetchLocation", kGetIL: "GetByIndex(last)", kGetIN: "GetByIndex(length)", kDelIL: "DeleteByIndex(last)", kDelIN: "DeleteByIndex(length)", kPatIN: "PatchByIndex(length)", kStats: "cache.Stats", kLim00: "UpdateLimits(0,0)", kLim12: "UpdateLimits(1,2)", kLimBig: "UpdateLimits(big)"}

func btCallName(c *tcall) string {
	s := pNames[c.code]
	if s == "" {
		s = ccNames[c.code]
	}
	return fmt.Sprintf("tree%d.%s", c.tree, s)
}

// tstat is the reference state of one tree.
type tstat struct {
	m     Model
	dirty bool
	loc   Loc
	dead  bool
}

// btCall prepares a call of tree t: arguments are fixed beforehand from its initial content.
func (x *PW) btCall(th, tree, code, nth int) *tcall {
	t := x.trees[tree]
	n := len(t.m)
	c := &tcall{th: th, tree: tree, code: code, v: uint64(5000 + 100*th + nth)}
	data := func(op int, a uint64) {
		c.a = a
		c.run = func(c *tcall) { c.r, c.err = callOp(t.t, op, c.a, c.v) }
	}
	k := func(i int) uint64 {
		if n == 0 {
			return 5
		}
		return t.m[i].K
	}
	switch code {
	case pPutF, pPutM, pPutL:
		a, _ := freshKey(t.m, code-pPutF)
		data(oPut, a)
	case pDelF:
		data(oDel, k(0))
	case pDelM:
		data(oDel, k(n/2))
	case pDelL:
		data(oDel, k(n-1))
	case pDelIM:
		data(oDelI, uint64(n/2))
	case pPatM:
		data(oPat, k(n/2))
	case pPatIL:
		data(oPatI, uint64(n-1))
	case kGetIL:
		data(oGetI, uint64(n-1))
	case kGetIN:
		data(oGetI, uint64(n))
	case kDelIL:
		data(oDelI, uint64(n-1))
	case kDelIN:
		data(oDelI, uint64(n))
	case kPatIN:
		data(oPatI, uint64(n))
	case pGetF:
		data(oGet, k(0))
	case pGetM:
		data(oGet, k(n/2))
	case pGetL:
		data(oGet, k(n-1))
	case pGetIM:
		data(oGetI, uint64(n/2))
	case pBisM:
		a, _ := freshKey(t.m, 1)
		data(oBisL+nth%2, a)
	case pRej:
		data(oPut, k(n/2))
	case pLen:
		data(oLen, 0)
	case pFlush, pFlushP:
		c.run = func(c *tcall) { c.loc.Num, c.loc.Off, c.loc.Len, c.err = t.t.Flush(code == pFlushP) }
	case pPurge:
		c.run = func(c *tcall) { c.err = t.t.Purge(false) }
	case pPurgeT:
		c.run = func(c *tcall) { c.err = t.t.Purge(true) }
	case pTouch:
		c.run = func(c *tcall) { c.err = t.t.Touch() }
	case pTI0, pTIM:
		if code == pTIM {
			c.a = uint64(n / 2)
		}
		c.run = func(c *tcall) { c.n, c.err = t.t.TouchItem(c.a) }
	case pPrune:
		c.run = func(c *tcall) { c.err = t.t.Prune() }
	case pLayout:
		c.run = func(c *tcall) {
			rep, err := t.t.FetchLayoutReport()
			c.err = err
			if err == nil {
				c.rep = fmt.Sprint(rep) // sorted by object
			}
		}
	case pDim:
		c.run = func(c *tcall) {
			d, err := t.t.FetchDimensionsReport()
			c.n, c.err, c.rep = d.Items, err, fmt.Sprint(d)
		}
	case pVal:
		c.run = func(c *tcall) { c.err = t.t.Validate() }
	case pDump:
		c.run = func(c *tcall) { c.err = t.t.Dump() }
	case pDiscard:
		c.run = func(c *tcall) { c.err = t.t.Discard() }
	case kFetchLoc:
		c.run = func(c *tcall) { c.loc.Num, c.loc.Off, c.loc.Len = t.t.FetchLocation() }
	case kStats:
		c.run = func(c *tcall) {
			if s := x.cache.Stats(); s.CleanLRUItems+s.DirtyLRUItems > 1000 {
				c.err = fmt.Errorf("statistics %+v", *s)
			}
		}
	case kLim00:
		c.run = func(c *tcall) { x.cache.UpdateLimits(0, 0) }
	case kLim12:
		c.run = func(c *tcall) { x.cache.UpdateLimits(1, 2) }
	case kLimBig:
		c.run = func(c *tcall) { x.cache.UpdateLimits(limBig, limBig) }
	default:
		panic("bad call")
	}
	return c
}

var pToMap = map[int]int{pPutF: oPut, pPutM: oPut, pPutL: oPut, pDelF: oDel, pDelM: oDel, pDelL: oDel, pDelIM: oDelI, pPatM: oPat, pPatIL: oPatI, pGetF: oGet, pGetM: oGet, pGetL: oGet, pGetIM: oGetI, pRej: oPut, pLen: oLen, kGetIL: oGetI, kGetIN: oGetI, kDelIL: oDelI, kDelIN: oDelI, kPatIN: oPatI}

// stepBT applies a call to the reference state.
func (x *PW) stepBT(s tstat, c *tcall, nth int) (tstat, bool) {
	if c.code == pPurgeT {
		return s, (c.err != nil) == s.dirty
	}
	if c.err != nil {
		return s, false
	}
	op, isMap := pToMap[c.code]
	if c.code == pBisM {
		op, isMap = oBisL+nth%2, true
	}
	if isMap {
		m := s.m.clone()
		want := modelOp(&m, op, c.a, c.v)
		if want != c.r {
			return s, false
		}
		s.m = m
		if want.ok && (op == oPut || op == oDel || op == oDelI || op == oPat || op == oPatI) {
			s.dirty = true
		}
		return s, true
	}
	switch c.code {
	case pFlush, pFlushP:
		if !s.dirty {
			return s, c.loc == s.loc
		}
		if c.loc == s.loc {
			return s, false
		}
		got, ok := x.flushed(c.tree, c.loc)
		if !ok || !got.equal(s.m) {
			return s, false
		}
		s.dirty, s.loc = false, c.loc
	case kFetchLoc:
		if s.dirty {
			return s, c.loc == Loc{}
		}
		return s, c.loc == s.loc
	case pTouch:
		s.dirty = true
	case pTI0, pTIM:
		if c.a >= uint64(len(s.m)) {
			return s, c.n == 0
		}
		s.dirty = true
		return s, c.n > c.a && c.n <= uint64(len(s.m))
	case pDim:
		return s, c.n == uint64(len(s.m))
	case pDiscard:
		s.dead = true
	}
	return s, true
}

// flushed decodes the tree flushed to l, from everything ever written.
func (x *PW) flushed(tree int, l Loc) (Model, bool) {
	s := *x.trees[tree].st
	s.objs = s.arch
	sh, _, err := decodeTree(&s, l, x.trees[tree].cb.c)
	if err != nil {
		return nil, false
	}
	return shapeItems(sh), true
}

// concBT p = [lim0, ntrees, bases..., npre, pre..., lim, nthreads, (ncalls, call...)...]:
// the world is built under limits lim0, pre are executed, the limits changed to lim
// (the eviction this starts is one of the threads), then the threads run.
func concBT(w *Worker, p []int64, prefix []int8) ([]verifsync.Choice, error) {
	nt := int(p[1])
	np := int(p[2+nt])
	x, _, err := newPW(w, p[:2+nt], false)
	if err != nil {
		return nil, err
	}
	for _, t := range x.trees {
		t.st.keep()
	}
	q := p[3+nt:]
	for _, o := range q[:np] {
		if err := x.op(o); err != nil {
			return nil, err
		}
	}
	lim := q[np]
	q = q[np+1:]
	var bg []func()
	if x.cache != nil {
		x.cache.Stats()
		if lim >= 0 {
			x.low, x.high = pgLimits[lim][0], pgLimits[lim][1]
			x.cache.UpdateLimits(x.low, x.high)
			bg = w.q.Take()
		}
	}
	threads, calls, nthOf := x.btThreads(q)
	misses, gets, dataOnly := uint64(0), x.gets(), true
	if x.cache != nil {
		misses = x.cache.Stats().CacheMisses
	}
	for _, c := range calls {
		_, isMap := pToMap[c.code]
		dataOnly = dataOnly && (isMap || c.code == pBisM || c.code >= kFetchLoc)
		switch c.code {
		case kLim00:
			x.low, x.high = 0, 0
		case kLim12:
			x.low, x.high = 1, 2
		case kLimBig:
			x.low, x.high = limBig, limBig
		}
	}
	tr, err := w.schedule(threads, bg, prefix)
	if err != nil {
		return tr, fmt.Errorf("%w%s", err, callsStr(threads, btCallName))
	}
	if err := x.bad(); err != nil {
		return tr, fmt.Errorf("%w%s", err, callsStr(threads, btCallName))
	}
	if w.q.Pending() != 0 {
		return tr, fmt.Errorf("internal: goroutines queued in a controlled execution")
	}
	got := make([]string, len(x.trees))
	for i := range x.trees {
		got[i] = x.outcome(i, calls)
	}
	orders, err := w.ordersOf(p)
	if err != nil {
		return tr, err
	}
	for i := range x.trees {
		if !orders[i].explain(got[i], calls) {
			return tr, fmt.Errorf("no sequential order of the calls on tree %d leads to the same results and the same stored nodes:%s\n  %s", i, callsStr(threads, btCallName), got[i])
		}
	}
	if x.cache != nil {
		s := x.cache.Stats()
		lims := 0
		for _, c := range calls {
			if c.code == kLim00 || c.code == kLim12 || c.code == kLimBig {
				lims++
			}
		}
		if lims > 1 {
			x.low, x.high = s.EvictLowLimit, s.EvictHighLimit
		}
		if s.EvictLowLimit != x.low || s.EvictHighLimit != x.high {
			return tr, fmt.Errorf("limits are %d,%d, statistics say %+v", x.low, x.high, *s)
		}
		if m, g := s.CacheMisses-misses, uint64(x.gets()-gets); dataOnly && m != g {
			return tr, fmt.Errorf("the operations fetched %d nodes and counted %d misses%s", g, m, callsStr(threads, btCallName))
		}
		// statistics are quiescent here: they must agree with what is there
		if s.CleanLRUItems+s.DirtyLRUItems > 1000 {
			return tr, fmt.Errorf("statistics %+v", *s)
		}
		if s.CleanLRUItems+s.DirtyLRUItems > x.high && s.CleanLRUItems > 0 {
			return tr, fmt.Errorf("eviction is not running though %d unmodified and %d modified nodes are resident, high limit %d", s.CleanLRUItems, s.DirtyLRUItems, x.high)
		}
		x.cache.UpdateLimits(limBig, limBig)
		if w.q.Pending() != 0 {
			return tr, fmt.Errorf("raising the limits started an eviction")
		}
		dirty, resident := uint64(0), uint64(0)
		for ti, t := range x.trees {
			dead := false
			for _, c := range calls {
				dead = dead || (c.code == pDiscard && c.tree == ti)
			}
			if dead {
				continue
			}
			puts := t.st.puts
			l, err := fetchLoc(t.t)
			if err != nil {
				return tr, err
			}
			_ = l
			t.preLoc = l
			if err := safely(func() (e error) { t.fl.Num, t.fl.Off, t.fl.Len, e = t.t.Flush(false); return }); err != nil {
				return tr, err
			}
			dirty += uint64(t.st.puts - puts)
			sh, _, err := decodeTree(t.st, t.fl, t.cb.c)
			if err != nil {
				return tr, fmt.Errorf("flushed afterwards: %w%s", err, callsStr(threads, btCallName))
			}
			g := t.st.gets
			if err := validate(t.t); err != nil {
				return tr, err
			}
			resident += uint64(len(sh.locs(nil)) - (t.st.gets - g))
		}
		if resident != s.CleanLRUItems+s.DirtyLRUItems {
			return tr, fmt.Errorf("statistics counted %d unmodified and %d modified nodes, %d are resident%s", s.CleanLRUItems, s.DirtyLRUItems, resident, callsStr(threads, btCallName))
		}
		if dirty != s.DirtyLRUItems {
			return tr, fmt.Errorf("statistics counted %d modified nodes, flushing wrote %d%s", s.DirtyLRUItems, dirty, callsStr(threads, btCallName))
		}
	}
	for i, t := range x.trees {
		var cs []*tcall
		for _, c := range calls {
			if c.tree == i && c.code < kStats {
				cs = append(cs, c)
			}
		}
		dead := false
		for _, c := range cs {
			dead = dead || c.code == pDiscard
		}
		var fin Model
		var loc Loc
		if !dead {
			if x.cache != nil {
				loc = t.preLoc
			} else if loc, err = fetchLoc(t.t); err != nil {
				return tr, err
			}
			for j := 0; ; j++ {
				var r opRes
				if err := safely(func() (e error) { r, e = callOp(t.t, oGetI, uint64(j), 0); return }); err != nil {
					return tr, err
				}
				if !r.ok {
					break
				}
				fin = append(fin, KV{r.k, r.v})
			}
		}
		init := tstat{m: t.m.clone(), dirty: t.dirty, loc: t.c}
		var last tstat
		ok := linearize(cs, init, func(s tstat, c *tcall) (tstat, bool) { return x.stepBT(s, c, nthOf[c]) }, func(s tstat) bool {
			if s.dead {
				last = s
				return true
			}
			if !s.m.equal(fin) || (s.dirty && loc != Loc{}) || (!s.dirty && loc != s.loc) {
				return false
			}
			last = s
			return true
		})
		if !ok {
			return tr, fmt.Errorf("no sequential order of the calls on tree %d (content %v, unflushed modifications %v, location %v) explains the results, the final content %v and location %v:%s", i, t.m, t.dirty, t.c, fin, loc, callsStr(threads, btCallName))
		}
		t.m, t.dirty, t.c, t.dead = last.m, last.dirty, last.loc, last.dead
		if t.dead && len(t.st.objs) != 0 {
			return tr, fmt.Errorf("Discard left %v allocated", t.st.list())
		}
	}
	for i, t := range x.trees {
		if t.dead {
			continue
		}
		end := func() error {
			if x.cache != nil && t.dirty { // flushed above
				t.dirty, t.c = false, t.fl
			}
			if err := validate(t.t); err != nil {
				return err
			}
			if err := x.op1(t, pFlush); err != nil {
				return err
			}
			if err := x.op1(t, pPrune); err != nil {
				return err
			}
			sh, _, err := decodeTree(t.st, t.c, t.cb.c)
			if err != nil {
				return fmt.Errorf("after Flush and Prune: %w", err)
			}
			if !shapeItems(sh).equal(t.m) {
				return fmt.Errorf("flushed %v, want %v", shapeItems(sh), t.m)
			}
			if k := len(sh.locs(nil)); k != len(t.st.objs) {
				return fmt.Errorf("after Flush and Prune %v are allocated, %d of them reachable", t.st.list(), k)
			}
			return x.op1(t, pDiscard)
		}
		if err := end(); err != nil {
			return tr, fmt.Errorf("afterwards, tree %d: %w%s", i, err, callsStr(threads, btCallName))
		}
	}
	if x.cache != nil {
		if s := x.cache.Stats(); s.CleanLRUItems != 0 || s.DirtyLRUItems != 0 {
			return tr, fmt.Errorf("after discarding every tree the cache still counts %d unmodified and %d modified nodes%s", s.CleanLRUItems, s.DirtyLRUItems, callsStr(threads, btCallName))
		}
	}
	return tr, x.bad()
}

// btThreads makes the calls of the threads described by q.
func (x *PW) btThreads(q []int64) (threads [][]*tcall, calls []*tcall, nthOf map[*tcall]int) {
	nthOf = map[*tcall]int{}
	n := int(q[0])
	q = q[1:]
	for i := 0; i < n; i++ {
		var cs []*tcall
		for j, o := range q[1 : 1+q[0]] {
			c := x.btCall(i, int(o/100), int(o%100), j)
			nthOf[c] = j
			cs = append(cs, c)
			calls = append(calls, c)
		}
		q = q[1+q[0]:]
		threads = append(threads, cs)
	}
	return
}

// outcome describes everything the calls on a tree led to: their results, the nodes in
// storage and the location.
func (x *PW) outcome(tree int, calls []*tcall) string {
	t := x.trees[tree]
	b := make([]byte, 0, 256)
	num := func(vs ...uint64) {
		for _, v := range vs {
			b = append(strconv.AppendUint(b, v, 10), ' ')
		}
	}
	dead := false
	for i, c := range calls {
		if c.tree != tree || c.code >= kStats {
			continue
		}
		dead = dead || c.code == pDiscard
		b = append(strconv.AppendInt(b, int64(i), 10), ':')
		for _, f := range []bool{c.r.ok, c.r.isNil, c.err != nil} {
			b = strconv.AppendBool(b, f)
		}
		num(uint64(c.r.n), c.r.k, c.r.v, c.loc.Num, c.loc.Off, c.loc.Len, c.n)
		b = append(b, c.rep...)
	}
	// what is stored, as an order-independent sum
	var sum, xor uint64
	for l, o := range t.st.objs {
		if o.sum == 0 {
			h := fnv.New64a()
			h.Write(o.copy)
			o.sum = h.Sum64()
		}
		v := (o.sum ^ (l.Num*0x9e3779b97f4a7c15 + l.Off*0xc2b2ae3d27d4eb4f + l.Len*0x165667b19e3779f9)) * 0xff51afd7ed558ccd
		v ^= v >> 31
		sum += v
		xor ^= v * 0xc4ceb9fe1a85ec53
	}
	b = append(b, "stored "...)
	num(uint64(len(t.st.objs)), sum, xor)
	if !dead {
		l, err := fetchLoc(t.t)
		b = strconv.AppendBool(b, err != nil)
		num(l.Num, l.Off, l.Len)
	}
	return string(b)
}

// seqOrder is an order of the calls on a tree and what it leads to.
type seqOrder struct {
	order []int
	out   string
}
type seqOrders []seqOrder

// explain looks for an order with the same outcome that is consistent with real time.
func (os seqOrders) explain(got string, calls []*tcall) bool {
	for _, o := range os {
		if o.out != got {
			continue
		}
		ok := true
		for i := range o.order {
			for j := i + 1; j < len(o.order); j++ {
				ok = ok && calls[o.order[j]].end >= calls[o.order[i]].start
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// ordersOf runs the calls of the scenario one after the other, in every order that keeps
// each thread's own: the code itself, used sequentially, is the reference.
func (w *Worker) ordersOf(p []int64) ([]seqOrders, error) {
	if !slices.Equal(p, w.ordKey) {
		w.ordKey = append([]int64(nil), p...)
		w.ords, w.ordErr = w.ordersRun(p)
	}
	return w.ords, w.ordErr
}

func (w *Worker) ordersRun(p []int64) (res []seqOrders, err error) {
	nt := int(p[1])
	np := int(p[2+nt])
	build := func() (*PW, []*tcall, error) {
		h := append([]int64{-1}, p[1:2+nt]...) // no cache: what is resident must not matter
		x, _, err := newPW(w, h, false)
		if err != nil {
			return nil, nil, err
		}
		q := p[3+nt:]
		for _, o := range q[:np] {
			if err := x.op(o); err != nil {
				return nil, nil, err
			}
		}
		_, calls, _ := x.btThreads(q[np+1:])
		return x, calls, nil
	}
	for tree := 0; tree < nt; tree++ {
		_, calls, err := build()
		if err != nil {
			return nil, err
		}
		var mine []int
		for i, c := range calls {
			if c.tree == tree && c.code < kStats {
				mine = append(mine, i)
			}
		}
		var os seqOrders
		var rec func(order []int) error
		rec = func(order []int) error {
			if len(order) == len(mine) {
				x, calls, err := build()
				if err != nil {
					return err
				}
				for _, i := range order {
					c := calls[i]
					if err := safely(func() error { c.run(c); return nil }); err != nil {
						return fmt.Errorf("one after the other: %w", err)
					}
				}
				os = append(os, seqOrder{append([]int(nil), order...), x.outcome(tree, calls)})
				return nil
			}
		next:
			for _, i := range mine {
				for _, j := range order {
					if i == j {
						continue next
					}
				}
				for _, j := range mine { // an earlier call of the same thread comes first
					if j < i && calls[j].th == calls[i].th {
						in := false
						for _, k := range order {
							in = in || k == j
						}
						if !in {
							continue next
						}
					}
				}
				if err := rec(append(order, i)); err != nil {
					return err
				}
			}
			return nil
		}
		if err := rec(nil); err != nil {
			return nil, err
		}
		res = append(res, os)
	}
	return res, nil
}

// keep archives everything written from now on (and what is there).
func (s *Store) keep() {
	s.arch = map[Loc]*blob{}
	for l, b := range s.objs {
		s.arch[l] = b
	}
}

func concCase(run func(w *Worker, p []int64, prefix []int8) ([]verifsync.Choice, error)) func(w *Worker, p []int64) error {
	return func(w *Worker, p []int64) error {
		head, prefix, all := p, []int8{}, false
		for i, v := range p {
			if v == -1 && i+1 < len(p) && i > 3 && p[i+1] <= 1 && isSep(p, i) {
				head, all = p[:i], p[i+1] == 1
				for _, c := range p[i+2:] {
					prefix = append(prefix, int8(c))
				}
				break
			}
		}
		verifsync.Track(true, all)
		defer verifsync.Track(false, false)
		_, err := run(w, head, prefix)
		return err
	}
}

// isSep tells whether the -1 at i separates the scenario from the schedule: scenarios
// hold no -1 after their first element but in limits, which come before the thread count.
func isSep(p []int64, i int) bool {
	for _, v := range p[i+1:] {
		if v < 0 {
			return false
		}
	}
	return true
}

func init() {
	for _, p := range []string{"C14", "C15", "C16"} {
		multiProc[p] = true
		levels[p] = "model_checking"
		assumptions[p] = []string{"scheduling points are the lock acquisitions (but those always made under a common lock), thread starts and ends; the race detector certifies for every explored schedule that nothing else orders or disturbs the threads", "preemptions per schedule are bounded as stated", "callbacks satisfy their contracts"}
	}
	kinds["conc.llrb"] = concCase(concLLRB)
	kinds["conc.llrb2"] = concCase(concLLRB2)
	kinds["conc.bt"] = concCase(concBT)
	checks["C14"] = func(r *Run) {
		nc := len(llrbCalls)
		var scen [][]int64
		for _, n := range []int64{0, 1, 2, 5, 7} {
			for a := 0; a < nc; a++ {
				for b := a; b < nc; b++ {
					scen = append(scen, []int64{n, 2, 1, int64(a), 1, int64(b)})
				}
			}
		}
		for _, n := range pickTier(r, []int64{1, 2, 5}, []int64{0, 1, 2, 3, 5}) {
			for a := 0; a < nc; a++ {
				for b := a; b < nc; b++ {
					for c := b; c < nc; c++ {
						scen = append(scen, []int64{n, 3, 1, int64(a), 1, int64(b), 1, int64(c)})
					}
				}
			}
		}
		two := []int64{0, 1, 3, 4, 5, 6, 7, 9, 11, 12, 13, 14, 15, 16, 17, 18}
		for _, a := range two {
			for _, b := range two {
				for _, c := range two {
					for _, d := range two {
						if a*100+b <= c*100+d {
							scen = append(scen, []int64{3, 2, 2, a, b, 2, c, d})
						}
					}
				}
			}
		}
		if r.tier != "quick" {
			// two calls against one and one
			for a := 0; a < nc; a++ {
				for b := 0; b < nc; b++ {
					for _, c := range two {
						for _, d := range two {
							if c <= d {
								scen = append(scen, []int64{3, 3, 2, int64(a), int64(b), 1, c, 1, d})
							}
						}
					}
				}
			}
		}
		exploreScenarios(r, "conc.llrb", scen, 6, concLLRB)
		// different trees used by different goroutines
		var indep [][]int64
		for _, n := range pickTier(r, []int64{0, 2, 5}, []int64{0, 1, 2, 5, 7}) {
			for a := 0; a < nc; a++ {
				for b := a; b < nc; b++ {
					indep = append(indep, []int64{n, 2, 1, int64(a), 1, int64(b)})
				}
			}
		}
		exploreScenarios(r, "conc.llrb2", indep, 6, concLLRB2)
		r.sample("threads Put(90) | DeleteByIndex(0) | Reset on a tree of 2 items, all schedules")
	}
	one := []int64{pPutF, pPutM, pPutL, pDelF, pDelM, pDelL, pDelIM, pPatM, pPatIL, pGetF, pGetL, pGetIM, pBisM, pRej, pLen, pFlush, pFlushP, pPurge, pPurgeT, pTouch, pTI0, pTIM, pPrune, pLayout, pDim, pVal, pDump, kFetchLoc, kGetIL, kGetIN, kDelIL, kDelIN, kPatIN}
	few := []int64{pPutM, pDelM, pPatM, pGetF, pFlush, pFlushP, pPurge, pTouch, pPrune, kFetchLoc}
	world := func(lim0 int64, bases, pre []int64, lim int64, threads ...[]int64) []int64 {
		p := append([]int64{lim0, int64(len(bases))}, bases...)
		p = append(append(p, int64(len(pre))), pre...)
		p = append(p, lim, int64(len(threads)))
		for _, t := range threads {
			p = append(append(p, int64(len(t))), t...)
		}
		return p
	}
	l := func(x ...int64) []int64 { return x }
	checks["C15"] = func(r *Run) {
		var scen, pb [][]int64
		// the root splits, or its last two children merge, and what follows is written
		for _, base := range l(14, 8) {
			for _, pre := range pickTier(r, [][]int64{{}}, [][]int64{{}, {pVal}, {pTouch, pFlush}}) {
				for _, a := range l(pPutM, pPutL, pDelF, pDelL) {
					for _, b := range l(pFlush, pFlushP, pTouch) {
						for _, c := range one {
							scen = append(scen, world(-1, l(base), pre, -1, l(a, b), l(c)))
						}
					}
				}
			}
		}
		for _, base := range pickTier(r, l(0, 3, 5), l(0, 1, 2, 8, 3, 4, 5, 7)) {
			for _, pre := range pickTier(r, [][]int64{{}, {pPutM}}, [][]int64{{}, {pVal}, {pPutM}, {pTouch, pFlush}}) {
				for i, a := range one {
					for _, b := range one[i:] {
						scen = append(scen, world(-1, l(base), pre, -1, l(a), l(b)))
					}
				}
			}
		}
		for _, pre := range [][]int64{{}, {pPutM}} {
			for i, a := range few {
				for j, b := range few {
					for k, c := range few {
						if i <= j && j <= k {
							scen = append(scen, world(-1, l(3), pre, -1, l(a), l(b), l(c)))
						}
						for _, d := range few {
							if a*100+b <= c*100+d {
								scen = append(scen, world(-1, l(3), pre, -1, l(a, b), l(c, d)))
							}
						}
					}
				}
			}
		}
		exploreScenarios(r, "conc.bt", scen, 6, concBT)
		// different trees used by different goroutines, without and with a common cache
		var indep [][]int64
		for _, lim := range l(-1, 0) {
			for _, a := range one {
				for _, b := range pickTier(r, few, one) {
					indep = append(indep, world(lim, l(3, 8), l(), -1, l(a), l(100+b)))
				}
			}
		}
		exploreScenarios(r, "conc.bt", indep, 2, concBT)
		// with a node cache (large: no eviction here; eviction is C16's)
		for _, base := range pickTier(r, l(3), l(0, 3, 5)) {
			for i, a := range one {
				for _, b := range one[i:] {
					pb = append(pb, world(0, l(base), l(), -1, l(a), l(b)))
				}
			}
		}
		// the root splits or goes away
		for _, base := range l(14, 8) {
			for _, a := range l(pPutM, pDelF) {
				for _, b := range one {
					pb = append(pb, world(0, l(base), l(), -1, l(a), l(b)))
				}
			}
		}
		// the cache's own methods, its limits lowered while the calls run
		for _, a := range one {
			for _, b := range l(kStats, kLim00, kLim12) {
				pb = append(pb, world(0, l(3), l(), -1, l(a), l(b)))
			}
		}
		exploreScenarios(r, "conc.bt", pb, pickTier(r, 2, 3), concBT)
		r.sample("threads Flush, Put | Delete, FetchLocation on a three-leaf tree, all schedules")
	}
	// eviction running against one client
	evict1 := func(bases []int64, pres [][]int64, calls []int64) (scen [][]int64) {
		for _, base := range bases {
			for _, pre := range pres {
				for _, lim := range l(1, 2) {
					for _, a := range calls {
						scen = append(scen, world(0, l(base), pre, lim, l(a)))
					}
				}
			}
		}
		return
	}
	// one client making two calls, evictions starting as limits are exceeded
	evict2 := func(bases, as, bs []int64) (scen [][]int64) {
		for _, base := range bases {
			for _, a := range as {
				for _, b := range bs {
					for _, lim := range l(1, 2) {
						scen = append(scen, world(0, l(base), l(pVal), lim, l(a, b)))
					}
				}
			}
		}
		return
	}
	// two clients and eviction
	evict22 := func(base, other int64, cl []int64) (scen [][]int64) {
		for i, a := range cl {
			for _, b := range cl[i:] {
				scen = append(scen, world(0, l(base), l(pVal), 2, l(a), l(b)))
			}
			for _, b := range append(append([]int64{}, cl...), pDiscard) {
				scen = append(scen, world(0, l(base, other), l(pVal, 100+pVal), 2, l(a), l(100+b)))
			}
		}
		return
	}
	c1 := append(append([]int64{}, one...), kStats, kLim00, kLim12, kLimBig, pDiscard)
	checks["C16"] = func(r *Run) {
		scen := evict1(pickTier(r, l(3, 8), l(3, 5, 2, 8, 14)), [][]int64{{pVal}, {pVal, pPutM}, {pGetL}, {pTouch, pFlush}}, c1)
		if r.quick() {
			// a tree of height three
			scen = append(scen, evict1(l(5), [][]int64{{pGetL}}, c1)...)
		}
		exploreScenarios(r, "conc.bt", scen, 3, concBT)
		scen = evict2(l(3), pickTier(r, l(pPutM, pDelM, pGetF, pGetL, pFlush, pTouch, pVal, pDelL, pPrune, kLimBig), one), pickTier(r, l(pPutM, pDelF, pGetL, pFlushP, pPurge, pDiscard, kLim00, pPatM, pLayout, pFlush), c1))
		scen = append(scen, evict22(8, 2, pickTier(r, l(pPutM, pDelM, pGetF, pGetL, pFlushP, pPurge, pTouch, pPrune, kLim00), l(pPutF, pPutM, pDelM, pDelF, pPatM, pGetF, pGetL, pFlush, pFlushP, pPurge, pTouch, pPrune, pVal, pDump)))...)
		exploreScenarios(r, "conc.bt", scen, pickTier(r, 2, 3), concBT)
		r.sample("eviction | tree0.Delete(middle) | tree1.Discard, cache limits 1,2, everything resident at the start")
	}
	// the same interleavings for what they mean to content, accounting and statistics
	waves["C05"] = func(r *Run) {
		scen := evict1(l(3), [][]int64{{pVal}, {pVal, pPutM}}, c1)
		scen = append(scen, evict2(l(3), l(pPutM, pDelM, pGetL, pFlush, pTouch), l(pPutM, pDelF, pGetL, pFlushP, pPurge))...)
		exploreScenarios(r, "conc.bt", scen, pickTier(r, 2, 3), concBT)
		r.sample("eviction | Put(middle), Purge(false) on a three-leaf tree, cache limits 1,2, all schedules")
	}
	waves["C17"] = func(r *Run) {
		scen := evict1(l(3), [][]int64{{pVal}, {pVal, pPutM}}, c1)
		scen = append(scen, evict2(l(3), l(pPutM, pDelM, pGetL, pFlush, pTouch, kLimBig), l(pPutM, pGetL, pFlushP, pPurge, kLim00, kLim12))...)
		scen = append(scen, evict22(8, 2, l(pPutM, pGetL, pFlushP))...)
		exploreScenarios(r, "conc.bt", scen, pickTier(r, 2, 3), concBT)
		r.sample("eviction | Put(middle), UpdateLimits(0,0) on a three-leaf tree, cache limits 1,2, all schedules")
	}
	waves["C07"] = func(r *Run) {
		acct := l(pPutM, pDelM, pFlush, pFlushP, pTouch, pPrune, pLayout)
		var scen [][]int64
		for _, pre := range [][]int64{{}, {pPutM}, {pTouch, pFlush}} {
			for i, a := range acct {
				for j, b := range acct {
					if i <= j {
						scen = append(scen, world(-1, l(3), pre, -1, l(a), l(b)))
					}
					for _, c := range acct {
						scen = append(scen, world(-1, l(3), pre, -1, l(a, b), l(c)))
					}
				}
			}
		}
		exploreScenarios(r, "conc.bt", scen, 6, concBT)
		scen = evict1(l(3), [][]int64{{pVal}, {pVal, pPutM}, {pTouch, pFlush, pVal}}, l(pPutM, pDelM, pFlush, pFlushP, pTouch, pPrune, pLayout, pDiscard))
		scen = append(scen, evict2(l(3), l(pDelM, pTouch, pFlush), l(pFlush, pFlushP, pPrune, pDiscard))...)
		exploreScenarios(r, "conc.bt", scen, pickTier(r, 2, 3), concBT)
		r.sample("Flush | Prune | Put(middle) on a three-leaf tree, all schedules")
	}
}

func exploreScenarios(r *Run, kind string, scen [][]int64, bound int, run func(w *Worker, p []int64, prefix []int8) ([]verifsync.Choice, error)) {
	w := r.workers[0]
	verifsync.Attach(w.q)
	defer w.idle()
	for i, s := range scen {
		// spread the scenarios over the processes
		if int(uint64(i)*2654435761%uint64(1<<32)>>8)%r.shards != r.shard {
			continue
		}
		if r.expired() {
			if !r.stop.Load() {
				r.over(kind)
			}
			return
		}
		s := s
		w.exploreSchedules(kind, s, bound, func(prefix []int8) ([]verifsync.Choice, error) { return run(w, s, prefix) })
		r.part(fmt.Sprintf("%s scenarios, preemption bound %d", kind, bound), 1)
	}
}
