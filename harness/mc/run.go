package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/NVIDIA/sortedmap/verifsync"
)

// ---------------------------------------------------------------- cases

// Case is one execution of the implementation, reproducible from its integers alone.
type Case struct {
	Kind string  `json:"kind"`
	P    []int64 `json:"p"`
}

// kinds maps a case kind to the function that executes it from scratch.
var kinds = map[string]func(w *Worker, p []int64) error{}

// describe optionally renders a case for people.
var describe = map[string]func(p []int64) string{}

// checks maps a property to its exploration.
var checks = map[string]func(r *Run){}

// ---------------------------------------------------------------- run state

type Run struct {
	prop     string
	tier     string
	seed     int64
	deadline time.Time
	start    time.Time
	workers  []*Worker
	shard    int // shard of a multi-process exploration
	shards   int

	states, trans, evals, nontriv, traces atomic.Int64
	exhaustive                            atomic.Bool
	stop                                  atomic.Bool

	mu         sync.Mutex
	samples    []string
	notes      []string
	parts      map[string]int64
	violations []violation
}

type violation struct {
	Case Case
	Err  string
}

// Worker is one exploring goroutine.
type Worker struct {
	r    *Run
	id   int
	q    *verifsync.Queue
	slot []byte
	beat uint64
	hits int

	ordKey []int64 // the scenario whose sequential outcomes these are
	ords   []seqOrders
	ordErr error
}

const slotSize = 1 << 16

func (r *Run) quick() bool { return r.tier != "thorough" }

// pickTier selects a bound by tier.
func pickTier[T any](r *Run, quick, thorough T) T {
	if r.quick() {
		return quick
	}
	return thorough
}

func (r *Run) expired() bool { return r.stop.Load() || time.Now().After(r.deadline) }

// over notes that a bound was not exhausted in time.
func (r *Run) over(what string) {
	if r.exhaustive.Swap(false) {
		r.note("time bound reached in %s: the stated bound was not exhausted there", what)
	}
}

func (r *Run) note(f string, a ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

func (r *Run) sample(f string, a ...any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(f, a...))
	}
	r.mu.Unlock()
}

func (r *Run) part(name string, n int64) {
	r.mu.Lock()
	r.parts[name] += n
	r.mu.Unlock()
}

func (r *Run) violate(c Case, err error) {
	r.mu.Lock()
	if len(r.violations) < 3 {
		r.violations = append(r.violations, violation{Case{c.Kind, append([]int64(nil), c.P...)}, err.Error()})
	}
	r.mu.Unlock()
	r.stop.Store(true)
}

// begin publishes the case about to run (for the supervisor, should the process die).
func (w *Worker) begin(kind string, p []int64) {
	if w.slot == nil {
		return
	}
	w.beat++
	b := w.slot
	n := len(p)
	if max := (slotSize - 64) / 8; n > max {
		n = max
	}
	atomic.StoreUint64((*uint64)(ptr(b)), 0)
	binary.LittleEndian.PutUint64(b[8:], uint64(n))
	b[16] = byte(len(kind))
	copy(b[17:48], kind)
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint64(b[64+8*i:], uint64(p[i]))
	}
	atomic.StoreUint64((*uint64)(ptr(b)), w.beat)
}

func readSlot(b []byte) (beat uint64, c Case) {
	beat = atomic.LoadUint64((*uint64)(ptr(b)))
	n := binary.LittleEndian.Uint64(b[8:])
	if n > slotSize/8 {
		return
	}
	c.Kind = string(b[17 : 17+int(b[16])])
	for i := uint64(0); i < n; i++ {
		c.P = append(c.P, int64(binary.LittleEndian.Uint64(b[64+8*i:])))
	}
	return
}

// idle marks the worker as not executing anything.
func (w *Worker) idle() {
	if w.slot != nil {
		w.beat++
		w.slot[16] = 0
		atomic.StoreUint64((*uint64)(ptr(w.slot)), w.beat)
	}
}

// do executes a case and records a violation if it fails.
func (w *Worker) do(kind string, p []int64) bool {
	w.begin(kind, p)
	w.q.Reset()
	w.r.evals.Add(1)
	err := safely(func() error { return kinds[kind](w, p) })
	if err == nil && w.q.Panic != "" {
		err = fmt.Errorf("%s", w.q.Panic)
	}
	if err != nil {
		w.r.violate(Case{kind, p}, err)
		return false
	}
	return true
}

// drain runs the background goroutines the code has started.
func (w *Worker) drain() error {
	w.q.RunQueued()
	if w.q.Panic != "" {
		return fmt.Errorf("%s", w.q.Panic)
	}
	return nil
}

// each runs f over 0..n-1 on all workers.
func (r *Run) each(n int, f func(w *Worker, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for _, w := range r.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			defer w.idle()
			verifsync.Attach(w.q)
			fin := false
			defer func() {
				if !fin {
					r.over("a worker (it ended early)")
				}
			}()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.expired() {
					fin = true
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

// ---------------------------------------------------------------- breadth-first search

type bfsState struct {
	hist []int64
	key  string
}

// bfs explores from the roots: expand must execute every operation of interest from
// the state reached by hist and emit the successors with their canonical keys.
// Up to reps histories are kept per key.
func (r *Run) bfs(name string, roots []bfsState, maxStates, reps int, expand func(w *Worker, s bfsState, emit func(hist []int64, key, sub string))) {
	const nsh = 64
	type shardT struct {
		mu sync.Mutex
		m  map[string]map[string]bool
	}
	var vis [nsh]shardT
	for i := range vis {
		vis[i].m = map[string]map[string]bool{}
	}
	var nStates, nKeys atomic.Int64
	seen := func(key, sub string) bool {
		h := uint(2166136261)
		for i := 0; i < len(key); i++ {
			h = (h ^ uint(key[i])) * 16777619
		}
		s := &vis[h%nsh]
		s.mu.Lock()
		defer s.mu.Unlock()
		m := s.m[key]
		if m == nil {
			m = map[string]bool{}
			s.m[key] = m
			nKeys.Add(1)
		}
		if m[sub] || len(m) >= reps {
			return true
		}
		m[sub] = true
		return false
	}
	level := roots
	for _, x := range roots {
		seen(x.key, "")
	}
	depth := 0
	for len(level) > 0 && !r.expired() {
		var mu sync.Mutex
		var nextL []bfsState
		full := false
		r.each(len(level), func(w *Worker, i int) {
			nStates.Add(1)
			expand(w, level[i], func(h []int64, key, sub string) {
				if seen(key, sub) {
					return
				}
				hh := append([]int64(nil), h...)
				mu.Lock()
				if int(nStates.Load())+len(nextL) < maxStates {
					nextL = append(nextL, bfsState{hh, key})
				} else {
					full = true
				}
				mu.Unlock()
			})
		})
		if full {
			r.over(name + " (state cap)")
		}
		depth++
		level = nextL
	}
	if len(level) > 0 && !r.stop.Load() {
		r.over(name)
	}
	r.states.Add(nKeys.Load())
	r.part(name+": distinct states", nKeys.Load())
	r.part(name+": states expanded", nStates.Load())
	r.part(name+": depth", int64(depth))
}

// ---------------------------------------------------------------- child

type childResult struct {
	States, Trans, Evals, Nontriv, Traces int64
	Exhaustive                            bool
	Samples, Notes                        []string
	Parts                                 map[string]int64
	Violations                            []violation
}

func newRun(prop, tier string, seed int64, budget time.Duration, nw int, mmapFile string) *Run {
	r := &Run{prop: prop, tier: tier, seed: seed, start: time.Now(), deadline: time.Now().Add(budget), parts: map[string]int64{}, shards: 1}
	r.exhaustive.Store(true)
	var mem []byte
	if mmapFile != "" {
		f, err := os.OpenFile(mmapFile, os.O_RDWR, 0)
		if err == nil {
			mem, _ = syscall.Mmap(int(f.Fd()), 0, slotSize*nw, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	for i := 0; i < nw; i++ {
		w := &Worker{r: r, id: i, q: &verifsync.Queue{}}
		if mem != nil {
			w.slot = mem[i*slotSize : (i+1)*slotSize]
		}
		r.workers = append(r.workers, w)
	}
	return r
}

var out = os.Stdout // the real standard output

func silence() {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

func childMain(prop, tier string, seed int64, budget time.Duration, nw int, mm, res string, shard, shards int, wave bool) {
	silence()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(6 << 30)
	limitMemory(24 << 30)
	r := newRun(prop, tier, seed, budget, nw, mm)
	r.shard, r.shards = shard, shards
	f := checks[prop]
	if wave {
		f = waves[prop]
	}
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		os.Exit(3)
	}
	if pf := os.Getenv("MC_PROFILE"); pf != "" {
		if o, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(o)
			defer o.Close()
		}
	}
	f(r)
	if r.expired() && !r.stop.Load() {
		r.over("the exploration")
	}
	pprof.StopCPUProfile()
	cr := childResult{r.states.Load(), r.trans.Load(), r.evals.Load(), r.nontriv.Load(), r.traces.Load(), r.exhaustive.Load(), r.samples, r.notes, r.parts, r.violations}
	b, _ := json.Marshal(cr)
	if err := os.WriteFile(res, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

// runCase executes one case in this process; exit 0 held, 1 violated.
func runCase(file string) {
	silence()
	debug.SetMaxStack(256 << 20)
	limitMemory(6 << 30)
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || kinds[rf.Case.Kind] == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		os.Exit(3)
	}
	r := newRun(rf.Property, rf.Tier, 1, time.Hour, 1, "")
	w := r.workers[0]
	verifsync.Attach(w.q)
	done := make(chan bool, 1)
	go func() {
		select {
		case <-done:
		case <-time.After(hangLimit):
			fmt.Fprintln(out, "REPRODUCED: does not terminate")
			os.Exit(1)
		}
	}()
	w.do(rf.Case.Kind, rf.Case.P)
	done <- true
	if len(r.violations) > 0 {
		fmt.Fprintf(out, "REPRODUCED: %s\n", r.violations[0].Err)
		os.Exit(1)
	}
	fmt.Fprintln(out, "held")
	os.Exit(0)
}

// limitMemory makes an allocation out of proportion fail at once (a crash the supervisor
// attributes to the case that made it) instead of exhausting the machine.
func limitMemory(n uint64) {
	if !raceBuild {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n})
	}
}

const hangLimit = 90 * time.Second

// ---------------------------------------------------------------- supervisor

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Case     Case   `json:"case"`
	What     string `json:"what"`
	Desc     string `json:"desc,omitempty"`
}

// levels gives the evidence level of each property.
var levels = map[string]string{}

// multiProc lists properties explored by several processes (controlled scheduler).
var multiProc = map[string]bool{}

// waves are explorations under the controlled scheduler that some properties need
// besides their check; each runs in several processes.
var waves = map[string]func(r *Run){}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	child := flag.Bool("child", false, "")
	mm := flag.String("mm", "", "")
	res := flag.String("res", "", "")
	nw := flag.Int("nw", 8, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	budget := flag.Duration("budget", 0, "")
	replay := flag.String("replay", "", "")
	wave := flag.Bool("wave", false, "")
	flag.Parse()
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	if *replay != "" {
		runCase(*replay)
	}
	if *budget == 0 {
		*budget = 400 * time.Second
		if *tier == "thorough" {
			*budget = 600 * time.Second
		}
	}
	if *child {
		childMain(*prop, *tier, seed, *budget, *nw, *mm, *res, *shard, *shards, *wave)
	}
	supervise(*prop, *tier, seed, *budget, *verif)
}

func supervise(prop, tier string, seed int64, budget time.Duration, verif string) {
	start := time.Now()
	if checks[prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(3)
	}
	tmp, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	exit := func(c int) { os.RemoveAll(tmp); os.Exit(c) }
	ncpu := runtime.NumCPU()
	type proc struct {
		cmd      *osexec.Cmd
		mem      []byte
		res      string
		log      string
		err      error
		done     bool
		lastBeat []uint64
		since    []time.Time
		hung     int
	}
	var mu sync.Mutex
	exe, _ := os.Executable()
	tot := childResult{Exhaustive: true, Parts: map[string]int64{}}
	broken := ""
	nwaves := 1
	if waves[prop] != nil {
		nwaves = 2
	}
	for wave := 0; wave < nwaves && len(tot.Violations) == 0 && broken == ""; wave++ {
		procs, nw := 1, ncpu
		if multiProc[prop] || wave > 0 {
			procs, nw = ncpu, 1
		}
		var ps []*proc
		for i := 0; i < procs; i++ {
			p := &proc{res: filepath.Join(tmp, fmt.Sprintf("res%d.%d", wave, i)), log: filepath.Join(tmp, fmt.Sprintf("log%d.%d", wave, i)), hung: -1}
			mmf := filepath.Join(tmp, fmt.Sprintf("mm%d.%d", wave, i))
			f, _ := os.Create(mmf)
			f.Truncate(int64(slotSize * nw))
			p.mem, err = syscall.Mmap(int(f.Fd()), 0, slotSize*nw, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				exit(3)
			}
			p.lastBeat = make([]uint64, nw)
			p.since = make([]time.Time, nw)
			for j := range p.since {
				p.since[j] = time.Now()
			}
			p.cmd = osexec.Command(exe, "-child", "-prop", prop, "-tier", tier, "-mm", mmf, "-res", p.res, "-nw", fmt.Sprint(nw), "-budget", budget.String(), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(procs), fmt.Sprintf("-wave=%v", wave > 0))
			p.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 log_path="+filepath.Join(tmp, fmt.Sprintf("race%d", i)))
			if procs > 1 {
				p.cmd.Env = append(p.cmd.Env, "GOMAXPROCS=2")
			}
			lf, _ := os.Create(p.log)
			p.cmd.Stdout, p.cmd.Stderr = lf, lf
			p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			if err := p.cmd.Start(); err != nil {
				fmt.Fprintln(os.Stderr, err)
				exit(3)
			}
			ps = append(ps, p)
			go func(p *proc) {
				e := p.cmd.Wait()
				mu.Lock()
				p.err, p.done = e, true
				mu.Unlock()
			}(p)
		}
		for {
			time.Sleep(50 * time.Millisecond)
			all := true
			mu.Lock()
			for _, p := range ps {
				if p.done {
					continue
				}
				all = false
				for i := 0; i < nw; i++ {
					b, c := readSlotHead(p.mem[i*slotSize : (i+1)*slotSize])
					if b != p.lastBeat[i] || c == "" {
						p.lastBeat[i], p.since[i] = b, time.Now()
					} else if time.Since(p.since[i]) > hangLimit && p.hung < 0 {
						p.hung = i
						p.cmd.Process.Signal(syscall.SIGQUIT)
						pp := p.cmd.Process
						time.AfterFunc(3*time.Second, func() { pp.Kill() })
					}
				}
			}
			mu.Unlock()
			if all {
				break
			}
		}
		for _, p := range ps {
			var cr childResult
			b, e := os.ReadFile(p.res)
			if e == nil && p.err == nil {
				e = json.Unmarshal(b, &cr)
			}
			if e != nil || p.err != nil {
				// the process died: find the case that killed it
				lg, _ := os.ReadFile(p.log)
				tail := string(lg)
				if len(tail) > 3000 {
					tail = tail[:3000]
				}
				found := false
				for i := 0; i < nw && !found; i++ {
					if p.hung >= 0 && i != p.hung {
						continue
					}
					_, c := readSlot(p.mem[i*slotSize : (i+1)*slotSize])
					if c.Kind == "" || kinds[c.Kind] == nil {
						continue
					}
					rf := replayFile{Property: prop, Tier: tier, Case: c}
					f := filepath.Join(tmp, "cand.json")
					j, _ := json.Marshal(rf)
					os.WriteFile(f, j, 0o644)
					o, e2 := osexec.Command(exe, "-replay", f).CombinedOutput()
					if e2 != nil {
						so := string(o)
						if len(so) > 3000 {
							so = so[:3000]
						}
						tot.Violations = append(tot.Violations, violation{c, "execution crashed or did not terminate: " + so})
						found = true
					}
				}
				if !found {
					broken += fmt.Sprintf("explorer process died (%v) and no case reproduces it:\n%s\n", p.err, tail)
				}
				continue
			}
			tot.States += cr.States
			tot.Trans += cr.Trans
			tot.Evals += cr.Evals
			tot.Nontriv += cr.Nontriv
			tot.Traces += cr.Traces
			tot.Exhaustive = tot.Exhaustive && cr.Exhaustive
			for _, x := range cr.Samples {
				if !slices.Contains(tot.Samples, x) {
					tot.Samples = append(tot.Samples, x)
				}
			}
			tot.Notes = append(tot.Notes, cr.Notes...)
			tot.Violations = append(tot.Violations, cr.Violations...)
			for k, v := range cr.Parts {
				if strings.HasSuffix(k, "depth") {
					if v > tot.Parts[k] {
						tot.Parts[k] = v
					}
				} else {
					tot.Parts[k] += v
				}
			}
		}
	}
	if len(tot.Samples) > 12 {
		tot.Samples = tot.Samples[:12]
	}
	lvl := levels[prop]
	cov := map[string]any{"exhaustive": tot.Exhaustive, "parts": tot.Parts, "notes": tot.Notes, "samples": tot.Samples}
	switch lvl {
	case "model_checking":
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = tot.States, tot.Trans, tot.Evals
	default:
		cov["evaluations"], cov["distinct_nontrivial"], cov["rule"] = tot.Evals, tot.Nontriv, rules[prop]
		if tot.States > 0 {
			cov["states"] = tot.States
		}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
		"assumptions": assumptions[prop], "wall_s": time.Since(start).Seconds(), "violations": len(tot.Violations)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence", "replays"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(3)
	}
	if len(tot.Violations) > 0 {
		sort.SliceStable(tot.Violations, func(i, j int) bool { return len(tot.Violations[i].Case.P) < len(tot.Violations[j].Case.P) })
		v := tot.Violations[0]
		rf := replayFile{Property: prop, Tier: tier, Case: v.Case, What: v.Err}
		if d := describe[v.Case.Kind]; d != nil {
			safely(func() error { rf.Desc = d(v.Case.P); return nil })
		}
		path := filepath.Join(verif, "evidence", "replays", prop+".json")
		j, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, append(j, '\n'), 0o644)
		fmt.Printf("case %s %v\n%s\n%s\n", v.Case.Kind, v.Case.P, rf.Desc, v.Err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit(1)
	}
	if broken != "" {
		fmt.Fprint(os.Stderr, broken)
		exit(2)
	}
	fmt.Printf("%s %s: held; states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs\n", prop, tier, tot.States, tot.Trans, tot.Evals, tot.Exhaustive, time.Since(start).Seconds())
	keys := make([]string, 0)
	for k := range tot.Parts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s = %d\n", k, tot.Parts[k])
	}
	for _, n := range tot.Notes {
		fmt.Println("  note:", n)
	}
	exit(0)
}

func readSlotHead(b []byte) (uint64, string) {
	beat := atomic.LoadUint64((*uint64)(ptr(b)))
	return beat, string(b[17 : 17+int(b[16]&31)])
}

var rules = map[string]string{}
var assumptions = map[string][]string{}
