package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	sm "github.com/NVIDIA/sortedmap"
)

// C10: the supplied comparators on all pairs of value lattices.

type cmpSpec struct {
	name string
	f    func(a, b sm.Key) (int, error)
	vals func(thorough bool) []sm.Key
	ord  func(a, b sm.Key) int // the natural order, computed independently
}

func sgn(a int) int {
	if a < 0 {
		return -1
	}
	if a > 0 {
		return 1
	}
	return 0
}

// bitLattice lists all sums of at most n terms +-2^k (k < bits) plus small offsets.
func bitLattice(bits int, deep bool) []uint64 {
	set := map[uint64]bool{}
	var base []uint64
	for k := 0; k < bits; k++ {
		base = append(base, 1<<uint(k))
	}
	add := func(x uint64) {
		offs := []uint64{0, 1, ^uint64(0)}
		if deep {
			offs = append(offs, 2, ^uint64(1), 3, ^uint64(2))
		}
		for _, o := range offs {
			set[x+o] = true
		}
	}
	add(0)
	for i, x := range base {
		add(x)
		add(-x)
		for _, y := range base[:i] {
			if deep || (i%8 >= 6 || i%8 == 0) {
				add(x + y)
				add(x - y)
				add(y - x)
			}
		}
	}
	var out []uint64
	for x := range set {
		if bits < 64 {
			x &= 1<<uint(bits) - 1
		}
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	u := out[:0]
	for i, x := range out {
		if i == 0 || x != out[i-1] {
			u = append(u, x)
		}
	}
	return u
}

func strLattice(deep bool) []string {
	alph := []string{"\x00", "a", "b", "\x7f", "\x80", "\xff"}
	n := 3
	if deep {
		n = 4
	}
	out := []string{""}
	prev := out
	for i := 0; i < n; i++ {
		var nx []string
		for _, p := range prev {
			for _, c := range alph {
				nx = append(nx, p+c)
			}
		}
		out = append(out, nx...)
		prev = nx
	}
	long := ""
	for i := 0; i < 70; i++ {
		long += "x"
	}
	for _, l := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65} {
		for _, c := range []string{"", "\x00", "a", "\xff"} {
			out = append(out, long[:l]+c)
			out = append(out, long[:l-1]+c+"x")
		}
	}
	out = append(out, "\u00e9", "e\u0301", "\u4e16", "Z", "z")
	seen := map[string]bool{}
	var u []string
	for _, s := range out {
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

func lexCmp(a, b []byte) int {
	for i := 0; ; i++ {
		if i == len(a) && i == len(b) {
			return 0
		}
		if i == len(a) {
			return -1
		}
		if i == len(b) {
			return 1
		}
		if a[i] != b[i] {
			if int(a[i]) < int(b[i]) {
				return -1
			}
			return 1
		}
	}
}

func cmpSpecs() []cmpSpec {
	lt := func(a, b bool) int {
		if a {
			return -1
		}
		if b {
			return 1
		}
		return 0
	}
	return []cmpSpec{
		{"CompareInt", sm.CompareInt, func(d bool) (o []sm.Key) {
			for _, x := range bitLattice(64, d) {
				o = append(o, int(x))
			}
			return
		}, func(a, b sm.Key) int { return lt(a.(int) < b.(int), b.(int) < a.(int)) }},
		{"CompareUint16", sm.CompareUint16, func(bool) (o []sm.Key) {
			for x := 0; x < 1<<16; x++ {
				o = append(o, uint16(x))
			}
			return
		}, func(a, b sm.Key) int { return lt(a.(uint16) < b.(uint16), b.(uint16) < a.(uint16)) }},
		{"CompareUint32", sm.CompareUint32, func(d bool) (o []sm.Key) {
			for _, x := range bitLattice(32, d) {
				o = append(o, uint32(x))
			}
			return
		}, func(a, b sm.Key) int { return lt(a.(uint32) < b.(uint32), b.(uint32) < a.(uint32)) }},
		{"CompareUint64", sm.CompareUint64, func(d bool) (o []sm.Key) {
			for _, x := range bitLattice(64, d) {
				o = append(o, x)
			}
			return
		}, func(a, b sm.Key) int { return lt(a.(uint64) < b.(uint64), b.(uint64) < a.(uint64)) }},
		{"CompareString", sm.CompareString, func(d bool) (o []sm.Key) {
			for _, x := range strLattice(d) {
				o = append(o, x)
			}
			return
		}, func(a, b sm.Key) int { return lexCmp([]byte(a.(string)), []byte(b.(string))) }},
		{"CompareByteSlice", sm.CompareByteSlice, func(d bool) (o []sm.Key) {
			o = append(o, []byte(nil))
			for _, x := range strLattice(d) {
				o = append(o, []byte(x))
			}
			return
		}, func(a, b sm.Key) int { return lexCmp(a.([]byte), b.([]byte)) }},
		{"CompareTime", sm.CompareTime, timeLattice, nil},
	}
}

// timeKey is a time value with the instant it was made from (seconds since year 1, nanoseconds).
type timeKey struct {
	t   time.Time
	sec int64
	ns  int64
}

func timeVals(deep bool) []timeKey {
	zones := []*time.Location{time.UTC, time.FixedZone("E", 14*3600), time.FixedZone("W", -12*3600)}
	if deep {
		zones = append(zones, time.FixedZone("x", 1), time.FixedZone("y", -1800))
	}
	secs := []int64{}
	for k := uint(0); k < 37; k++ {
		if deep || k%3 == 0 || k > 28 && k < 36 {
			secs = append(secs, 1<<k, -(1 << k), 1<<k-1, 1<<k+1)
		}
	}
	secs = append(secs, 0, -62135596800, -62135596801, 253402300799, 253402300800, math.MaxInt32, math.MinInt32, 9223372036, 9223372037, -9223372037, 4611686018427387903, -4611686018427387904, 9161596440000000000)
	sort.Slice(secs, func(i, j int) bool { return secs[i] < secs[j] })
	var out []timeKey
	for i, s := range secs {
		if i > 0 && secs[i-1] == s {
			continue
		}
		for _, ns := range []int64{0, 1, 854775807, 854775808, 999999999} {
			for zi, z := range zones {
				if !deep && ns > 1 && zi == 1 {
					continue
				}
				out = append(out, timeKey{time.Unix(s, ns).In(z), s, ns})
			}
		}
	}
	return out
}

func timeLattice(deep bool) (o []sm.Key) {
	for _, t := range timeVals(deep) {
		o = append(o, t.t)
	}
	return
}

type myInt int
type myString string
type myBytes []byte
type myTime time.Time

// otherKeys are keys of many types, by type name.
func otherKeys() []sm.Key {
	i, s, t := 5, "five", time.Unix(5, 0)
	u16 := uint16(5)
	return []sm.Key{nil, int(5), int8(5), int16(5), int32(5), int64(5), uint(5), uint8(5), uint16(5), uint32(5), uint64(5), uintptr(5), float32(5), float64(5), complex(5, 0), true, "five", []byte("five"), []byte(nil), [4]byte{}, []uint16{5}, []string{"five"}, t, &t, &i, &s, &u16, myInt(5), myString("five"), myBytes("five"), myTime(t), time.Duration(5), struct{}{}, struct{ A int }{5}, map[string]int{}, make(chan int), func() {}, error(errFault), (*int)(nil), []any{5}}
}

func cmpAll(c cmpSpec, a, b sm.Key, want int) error {
	r, err := c.f(a, b)
	if err != nil || sgn(r) != want {
		return fmt.Errorf("%s(%#v, %#v) = %d, %v; want sign %d", c.name, a, b, r, err, want)
	}
	return nil
}

func init() {
	levels["C10"] = "model_checking"
	assumptions["C10"] = []string{"the 16-bit comparator is checked on all pairs; the others on all pairs of boundary lattices (sums and differences of powers of two with small offsets, all short strings over six bytes, instants around powers of two in several zones)"}
	// cmp.row p=[comparator, row, deep]: one value against all values, both ways round.
	kinds["cmp.row"] = func(_ *Worker, p []int64) error {
		return cmpRow(cmpCached(p[2] == 1)[p[0]], int(p[1]))
	}
	kinds["cmp.types"] = func(_ *Worker, p []int64) error {
		specs := cmpSpecs()
		c := specs[p[0]]
		own := fmt.Sprintf("%T", c.vals(false)[3])
		ks := otherKeys()
		vs := c.vals(false)
		var mine []sm.Key
		for i := 0; i < len(vs); i += len(vs)/5 + 1 {
			mine = append(mine, vs[i])
		}
		call := func(a, b sm.Key) (err error) {
			e := safely(func() error { _, err = c.f(a, b); return nil })
			if e != nil {
				return e
			}
			if err == nil {
				return fmt.Errorf("%s(%T, %T) accepted", c.name, a, b)
			}
			return nil
		}
		for _, k := range ks {
			if fmt.Sprintf("%T", k) == own {
				continue
			}
			for _, m := range mine {
				if err := call(k, m); err != nil {
					return err
				}
				if err := call(m, k); err != nil {
					return err
				}
			}
			for _, k2 := range ks {
				if err := call(k, k2); err != nil {
					return err
				}
				if err := call(k2, k); err != nil {
					return err
				}
			}
		}
		return nil
	}
	checks["C10"] = func(r *Run) {
		deep := int64(pickTier(r, 0, 1))
		cc := cmpCached(deep == 1)
		for ci := range cc {
			n := len(cc[ci].vals)
			r.each(n, func(w *Worker, i int) {
				w.do("cmp.row", []int64{int64(ci), int64(i), deep})
				r.trans.Add(int64(n))
			})
			r.states.Add(int64(n))
			r.part(cc[ci].name+": values, all pairs compared", int64(n))
		}
		r.each(len(cc), func(w *Worker, i int) {
			w.do("cmp.types", []int64{int64(i)})
			r.trans.Add(int64(len(otherKeys()) * len(otherKeys())))
		})
		r.part("key types tried in either position", int64(len(otherKeys())))
		r.sample("CompareInt(%d, %d) is negative", math.MinInt64, math.MaxInt64)
		r.sample("all 2^32 ordered pairs of uint16")
	}
}

type cmpTable struct {
	cmpSpec
	vals []sm.Key
	tv   []timeKey
}

var cmpTables [2][]cmpTable

func cmpCached(deep bool) []cmpTable {
	i := 0
	if deep {
		i = 1
	}
	if cmpTables[i] == nil {
		var out []cmpTable
		for _, s := range cmpSpecs() {
			t := cmpTable{cmpSpec: s, vals: s.vals(deep)}
			if s.ord == nil {
				t.tv = timeVals(deep)
			}
			out = append(out, t)
		}
		cmpTables[i] = out
	}
	return cmpTables[i]
}

func cmpRow(c cmpTable, i int) error {
	a := c.vals[i]
	if c.name == "CompareUint16" {
		for j, b := range c.vals {
			r, err := c.f(a, b)
			if err != nil || (r < 0) != (i < j) || (r > 0) != (i > j) {
				return cmpAll(c.cmpSpec, a, b, sgn(i-j))
			}
		}
		return nil
	}
	for j, b := range c.vals {
		var want int
		if c.tv != nil {
			x, y := c.tv[i], c.tv[j]
			switch {
			case x.sec != y.sec:
				want = 1
				if x.sec < y.sec {
					want = -1
				}
			default:
				want = sgn(int(x.ns - y.ns))
			}
		} else {
			want = c.ord(a, b)
		}
		if err := cmpAll(c.cmpSpec, a, b, want); err != nil {
			return err
		}
	}
	return nil
}
