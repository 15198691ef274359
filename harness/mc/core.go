package main

import (
	"errors"
	"fmt"
	"math"
	"runtime/debug"
	"sort"
	"strings"

	sm "github.com/NVIDIA/sortedmap"
)

// ---------------------------------------------------------------- reference map

type KV struct{ K, V uint64 }

// Model is the reference: a sorted list of unique keys.
type Model []KV

func (m Model) find(k uint64) (int, bool) {
	i := sort.Search(len(m), func(i int) bool { return m[i].K >= k })
	return i, i < len(m) && m[i].K == k
}

func (m Model) clone() Model { return append(Model(nil), m...) }

func (m *Model) put(k, v uint64) bool {
	i, f := m.find(k)
	if f {
		return false
	}
	*m = append(*m, KV{})
	copy((*m)[i+1:], (*m)[i:])
	(*m)[i] = KV{k, v}
	return true
}

func (m *Model) delAt(i int) { *m = append((*m)[:i], (*m)[i+1:]...) }

func (m Model) equal(o Model) bool {
	if len(m) != len(o) {
		return false
	}
	for i := range m {
		if m[i] != o[i] {
			return false
		}
	}
	return true
}

func (m Model) String() string {
	var b strings.Builder
	b.WriteByte('[')
	for i, e := range m {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 60 {
			fmt.Fprintf(&b, "... (%d)", len(m))
			break
		}
		fmt.Fprintf(&b, "%d:%d", e.K, e.V)
	}
	b.WriteByte(']')
	return b.String()
}

// ---------------------------------------------------------------- comparators

var errIncomparable = errors.New("incomparable key")
var errNotUint = errors.New("key is not a uint64")

func cmpU64(a, b sm.Key) (int, error) {
	x, ok := a.(uint64)
	if !ok {
		return 0, errNotUint
	}
	y, ok := b.(uint64)
	if !ok {
		return 0, errNotUint
	}
	if x < y {
		return -magnitude(x, y), nil
	}
	if x > y {
		return magnitude(x, y), nil
	}
	return 0, nil
}

// magnitude: only the sign of what a comparator returns means anything.
func magnitude(x, y uint64) int {
	switch (x ^ y ^ x>>32 ^ y>>32 ^ y>>41) % 4 {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return 1 << 32 // nothing in the low bits
	}
	return math.MaxInt
}

// ---------------------------------------------------------------- safe calls

type panicErr struct{ s string }

func (p panicErr) Error() string { return p.s }

// safely runs f and turns a panic into an error.
func safely(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = panicErr{fmt.Sprintf("panic: %v\n%s", r, st)}
		}
	}()
	return f()
}

// ---------------------------------------------------------------- map operations

// Operation codes for single map operations.
const (
	oGet = iota
	oGetI
	oPut
	oDel
	oDelI
	oPat
	oPatI
	oBisL
	oBisR
	oLen
	nMapOps
)

var mapOpNames = []string{"GetByKey", "GetByIndex", "Put", "DeleteByKey", "DeleteByIndex", "PatchByKey", "PatchByIndex", "BisectLeft", "BisectRight", "Len"}

// opRes is the observable result of an operation.
type opRes struct {
	ok    bool
	n     int
	k, v  uint64
	isNil bool
}

func u(x any) (uint64, bool) {
	v, ok := x.(uint64)
	return v, ok
}

// callOp performs one operation on the implementation.
func callOp(t sm.SortedMap, code int, a, v uint64) (r opRes, err error) {
	switch code {
	case oGet:
		val, ok, e := t.GetByKey(a)
		r.ok, err = ok, e
		if ok && e == nil {
			x, isU := u(val)
			if !isU {
				return r, wrongf("GetByKey(%d) returned value %v (%T)", a, val, val)
			}
			r.v = x
		}
	case oGetI:
		key, val, ok, e := t.GetByIndex(int(int64(a)))
		r.ok, err = ok, e
		if ok && e == nil {
			x, isU := u(val)
			y, isU2 := u(key)
			if !isU || !isU2 {
				return r, wrongf("GetByIndex(%d) returned %v:%v", int64(a), key, val)
			}
			r.k, r.v = y, x
		}
	case oPut:
		r.ok, err = t.Put(a, v)
	case oDel:
		r.ok, err = t.DeleteByKey(a)
	case oDelI:
		r.ok, err = t.DeleteByIndex(int(int64(a)))
	case oPat:
		r.ok, err = t.PatchByKey(a, v)
	case oPatI:
		r.ok, err = t.PatchByIndex(int(int64(a)), v)
	case oBisL:
		r.n, r.ok, err = t.BisectLeft(a)
	case oBisR:
		r.n, r.ok, err = t.BisectRight(a)
	case oLen:
		r.n, err = t.Len()
		r.ok = true
	default:
		panic("bad op")
	}
	return
}

// modelOp performs one operation on the reference.
func modelOp(m *Model, code int, a, v uint64) (r opRes) {
	idx := int(int64(a))
	in := idx >= 0 && idx < len(*m)
	switch code {
	case oGet:
		i, f := m.find(a)
		r.ok = f
		if f {
			r.v = (*m)[i].V
		}
	case oGetI:
		r.ok = in
		if in {
			r.k, r.v = (*m)[idx].K, (*m)[idx].V
		}
	case oPut:
		r.ok = m.put(a, v)
	case oDel:
		i, f := m.find(a)
		r.ok = f
		if f {
			m.delAt(i)
		}
	case oDelI:
		r.ok = in
		if in {
			m.delAt(idx)
		}
	case oPat:
		i, f := m.find(a)
		r.ok = f
		if f {
			(*m)[i].V = v
		}
	case oPatI:
		r.ok = in
		if in {
			(*m)[idx].V = v
		}
	case oBisL:
		i, f := m.find(a)
		r.ok = f
		r.n = i
		if !f {
			r.n = i - 1
		}
	case oBisR:
		i, f := m.find(a)
		r.ok, r.n = f, i
	case oLen:
		r.n, r.ok = len(*m), true
	}
	return
}

func opStr(code int, a, v uint64) string {
	switch code {
	case oPut, oPat:
		return fmt.Sprintf("%s(%d,%d)", mapOpNames[code], a, v)
	case oPatI:
		return fmt.Sprintf("%s(%d,%d)", mapOpNames[code], int64(a), v)
	case oGetI, oDelI:
		return fmt.Sprintf("%s(%d)", mapOpNames[code], int64(a))
	case oLen:
		return "Len()"
	}
	return fmt.Sprintf("%s(%d)", mapOpNames[code], a)
}

// wrongErr is a wrong result (as opposed to an error the operation reported).
type wrongErr struct{ s string }

func (e wrongErr) Error() string      { return e.s }
func wrongf(f string, a ...any) error { return wrongErr{fmt.Sprintf(f, a...)} }

// exec performs one operation on both and compares the results.
func exec(t sm.SortedMap, m *Model, code int, a, v uint64) error {
	var got opRes
	err := safely(func() (e error) { got, e = callOp(t, code, a, v); return })
	if err != nil {
		return fmt.Errorf("%s on %v: unexpected error: %w", opStr(code, a, v), *m, err)
	}
	want := modelOp(m, code, a, v)
	if got != want {
		return wrongf("%s got %+v, want %+v (content now should be %v)", opStr(code, a, v), got, want, *m)
	}
	return nil
}

// keyBetween gives a key strictly between lo and hi, or lo when there is none.
func keyBetween(lo, hi uint64) uint64 { return lo + (hi-lo)/2 }

// checkLight checks length, every index and every present key.
func checkLight(t sm.SortedMap, m *Model) error {
	if err := exec(t, m, oLen, 0, 0); err != nil {
		return err
	}
	for i := range *m {
		if err := exec(t, m, oGetI, uint64(i), 0); err != nil {
			return err
		}
		if err := exec(t, m, oGet, (*m)[i].K, 0); err != nil {
			return err
		}
		if err := exec(t, m, oBisL+i%2, (*m)[i].K, 0); err != nil {
			return err
		}
	}
	return nil
}

// checkAll compares the whole observable content, including rejected operations
// (which must leave everything as it is).
func checkAll(t sm.SortedMap, m *Model) error {
	n := len(*m)
	if err := exec(t, m, oLen, 0, 0); err != nil {
		return err
	}
	for _, i := range []int{-1, n, n + 1, -1 << 63, 1<<63 - 1} {
		for _, c := range []int{oGetI, oDelI, oPatI} {
			if err := exec(t, m, c, uint64(int64(i)), 7); err != nil {
				return err
			}
		}
	}
	for i := 0; i <= n; i++ {
		lo, hi := uint64(0), ^uint64(0)
		if i > 0 {
			lo = (*m)[i-1].K
		}
		if i < n {
			hi = (*m)[i].K
		}
		gaps := []uint64{}
		if i == 0 {
			if hi > 0 {
				gaps = append(gaps, 0, hi-1)
			}
		} else if i == n {
			if lo < hi {
				gaps = append(gaps, lo+1, hi)
			}
		} else if hi-lo > 1 {
			gaps = append(gaps, lo+1, keyBetween(lo, hi), hi-1)
		}
		var last uint64
		for gi, g := range gaps {
			if gi > 0 && g == last {
				continue
			}
			last = g
			for _, c := range []int{oGet, oBisL, oBisR, oDel, oPat} {
				if err := exec(t, m, c, g, 9); err != nil {
					return err
				}
			}
		}
		if i < n {
			k := (*m)[i].K
			for _, c := range []int{oGet, oBisL, oBisR, oPut} {
				if err := exec(t, m, c, k, 11); err != nil {
					return err
				}
			}
			if err := exec(t, m, oGetI, uint64(i), 0); err != nil {
				return err
			}
		}
	}
	return exec(t, m, oLen, 0, 0)
}

func validate(t sm.SortedMap) error {
	if err := safely(t.Validate); err != nil {
		return fmt.Errorf("Validate: %w", err)
	}
	return nil
}
