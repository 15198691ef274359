package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"

	sm "github.com/NVIDIA/sortedmap"
)

// ---------------------------------------------------------------- simulated storage

type Loc struct{ Num, Off, Len uint64 }

func (l Loc) String() string { return fmt.Sprintf("%d+%d:%d", l.Num, l.Off, l.Len) }

// Callback kinds, also the fault classes.
const (
	cbGet = iota
	cbPut
	cbDiscard
	cbPackKey
	cbPackValue
	cbUnpackKey
	cbUnpackValue
	cbDumpKey
	cbDumpValue
	nCbKinds
)

var cbNames = []string{"GetNode", "PutNode", "DiscardNode", "PackKey", "PackValue", "UnpackKey", "UnpackValue", "DumpKey", "DumpValue"}

type blob struct {
	given []byte // the slice handed to PutNode (to notice later modification)
	copy  []byte
	slot  uint64
	sum   uint64 // of the image, if already computed
}

type traceEv struct {
	kind int
	loc  Loc
	key  uint64
	data []byte
}

var errFault = errors.New("injected callback fault")

// Store is the storage behind one or several trees' callbacks.
type Store struct {
	objs    map[Loc]*blob
	reuse   bool
	plain   bool     // locations recognisable by their offset (see pgclosure.go)
	next    uint64   // next slot (monotonic)
	free    []uint64 // released slots, sorted (reuse mode)
	everRel map[Loc]int
	arch    map[Loc]*blob // everything ever written, if kept

	count                [nCbKinds]int // callbacks so far
	calls                int           // all callbacks so far (fault index space)
	gets, puts, discards int

	faultAt   int  // fail the callback with this index (calls counter), -1 none
	faultKind int  // kind that was hit, -1 if not
	faultAll  bool // every callback from faultAt on fails

	trace   []traceEv
	tracing bool

	image  func(l Loc, b []byte) []byte // alters images handed out by GetNode
	onGet  func(l Loc)                  // sees successful fetches
	before func(kind int, l Loc)        // storage boundary hook (get not included)
	after  func(kind int, l Loc)
	bad    error // first protocol violation seen

	lent  [8]lentBuf // the images last handed out
	nlent int
	packs []packBuf // the packed keys and values handed out since the last PutNode
}

// lentBuf is a buffer the client has handed out and still owns.
type lentBuf struct{ given, copy []byte }

// packBuf is a packed key or value: the client's bytes go on behind it.
type packBuf struct {
	b []byte
	n int
}

const packSpare = 24

// lend hands out a buffer, and checks that those handed out before are as they were.
func (s *Store) lend(b []byte) []byte {
	i := s.nlent % len(s.lent)
	s.checkLent(i)
	s.lent[i] = lentBuf{b, append([]byte(nil), b...)}
	s.nlent++
	return b
}

func (s *Store) checkLent(i int) {
	if !bytes.Equal(s.lent[i].given, s.lent[i].copy) {
		s.fail("the image GetNode returned was modified")
	}
}

func (s *Store) checkAllLent() {
	for i := range s.lent {
		s.checkLent(i)
	}
	for _, p := range s.packs {
		for j := p.n; j < len(p.b); j++ {
			if p.b[j] != 0xa5 {
				s.fail("the memory behind a packed key or value was overwritten")
			}
		}
	}
	s.packs = s.packs[:0]
}

// pack hands out a packed key or value that is part of a larger buffer of the client's.
func (s *Store) pack(b []byte) []byte {
	n := len(b)
	for i := 0; i < packSpare; i++ {
		b = append(b, 0xa5)
	}
	if len(s.packs) < 64 {
		s.packs = append(s.packs, packBuf{b, n})
	}
	return b[:n]
}

func newStore(reuse bool) *Store {
	return &Store{objs: map[Loc]*blob{}, reuse: reuse, faultAt: -1, faultKind: -1, everRel: map[Loc]int{}}
}

func (s *Store) clone() *Store {
	c := newStore(s.reuse)
	c.plain = s.plain
	for l, b := range s.objs {
		c.objs[l] = &blob{b.copy, b.copy, b.slot, b.sum}
	}
	c.next = s.next
	c.free = append([]uint64(nil), s.free...)
	return c
}

func (s *Store) fail(format string, a ...any) {
	if s.bad == nil {
		s.bad = fmt.Errorf(format, a...)
	}
}

// tick counts a callback and says whether it must fail.
func (s *Store) tick(kind int) bool {
	i := s.calls
	s.calls++
	s.count[kind]++
	if s.faultAt >= 0 && (i == s.faultAt || (s.faultAll && i > s.faultAt)) {
		s.faultKind = kind
		return true
	}
	return false
}

func (s *Store) armFault(k int, all bool) {
	s.faultAt, s.faultAll, s.faultKind = s.calls+k, all, -1
}
func (s *Store) disarm() (hit bool) {
	hit = s.faultKind >= 0
	s.faultAt, s.faultAll = -1, false
	return
}

// slotLoc maps a slot to an object number and offset: three objects hold several nodes
// each, the first is number zero, every object starts at offset zero, and different
// objects use the same offsets; numbers and offsets use all their bits.
func slotLoc(slot uint64) (num, off uint64) {
	return [3]uint64{0, 1<<63 | 1<<32 | 1, 1}[slot%3], slot/3*4096 + [3]uint64{0, 0, 1 << 40}[slot%3]*(slot/3)
}

func (s *Store) get(l Loc) ([]byte, error) {
	if s.tick(cbGet) {
		// what comes with an error means nothing: half the image, or none
		if b := s.objs[l]; b != nil && s.calls%2 == 0 {
			return append([]byte(nil), b.copy[:len(b.copy)/2]...), errFault
		}
		return nil, errFault
	}
	s.gets++
	b := s.objs[l]
	if b == nil {
		if s.everRel[l] > 0 {
			s.fail("GetNode(%v): location was already discarded", l)
		} else {
			s.fail("GetNode(%v): location was never written", l)
		}
		return nil, fmt.Errorf("no such node %v", l)
	}
	if !bytes.Equal(b.given, b.copy) {
		s.fail("GetNode(%v): the image handed to PutNode was modified afterwards", l)
	}
	if s.tracing {
		s.trace = append(s.trace, traceEv{kind: cbGet, loc: l})
	}
	if s.onGet != nil {
		s.onGet(l)
	}
	out := append([]byte(nil), b.copy...)
	if s.image != nil {
		out = s.image(l, out)
	}
	return s.lend(out), nil
}

func (s *Store) put(p []byte) (uint64, uint64, error) {
	if s.tick(cbPut) {
		// a location that does not hold the node
		return 77, 4096 * uint64(s.calls), errFault
	}
	var slot uint64
	if s.reuse && len(s.free) > 0 {
		slot = s.free[0]
		s.free = s.free[1:]
	} else {
		slot = s.next
		s.next++
	}
	num, off := slotLoc(slot)
	if s.plain {
		num, off = 5, plainOff|slot<<12
	}
	l := Loc{num, off, uint64(len(p))}
	if s.before != nil {
		s.before(cbPut, l)
	}
	s.puts++
	s.checkAllLent()
	s.objs[l] = &blob{p, append([]byte(nil), p...), slot, 0}
	delete(s.everRel, l)
	if s.arch != nil {
		s.arch[l] = s.objs[l]
	}
	if s.tracing {
		s.trace = append(s.trace, traceEv{kind: cbPut, loc: l, data: s.objs[l].copy})
	}
	if s.after != nil {
		s.after(cbPut, l)
	}
	return num, off, nil
}

func (s *Store) discard(l Loc) error {
	if s.tick(cbDiscard) {
		return errFault
	}
	b := s.objs[l]
	if b == nil {
		if s.everRel[l] > 0 {
			s.fail("DiscardNode(%v): location discarded twice", l)
		} else {
			s.fail("DiscardNode(%v): location was never written", l)
		}
		return fmt.Errorf("no such node %v", l)
	}
	if s.before != nil {
		s.before(cbDiscard, l)
	}
	s.discards++
	if !bytes.Equal(b.given, b.copy) {
		s.fail("DiscardNode(%v): the image handed to PutNode was modified afterwards", l)
	}
	delete(s.objs, l)
	s.everRel[l]++
	if s.reuse {
		i := sort.Search(len(s.free), func(i int) bool { return s.free[i] >= b.slot })
		s.free = append(s.free, 0)
		copy(s.free[i+1:], s.free[i:])
		s.free[i] = b.slot
	}
	if s.tracing {
		s.trace = append(s.trace, traceEv{kind: cbDiscard, loc: l})
	}
	if s.after != nil {
		s.after(cbDiscard, l)
	}
	return nil
}

// perObject sums allocated bytes per object.
func (s *Store) perObject() map[uint64]uint64 {
	r := map[uint64]uint64{}
	for l := range s.objs {
		r[l.Num] += l.Len
	}
	return r
}

func (s *Store) startTrace() { s.trace = nil; s.tracing = true }
func (s *Store) stopTrace() []traceEv {
	s.tracing = false
	t := s.trace
	s.trace = nil
	return t
}

// ---------------------------------------------------------------- codecs

// Codec packs keys and values (both uint64 in the harness).
type Codec struct {
	name   string
	packK  func(uint64) []byte
	unpK   func([]byte) (uint64, int, error)
	packV  func(uint64) []byte
	unpV   func([]byte) (uint64, int, error)
	noVals bool // values carry no information (always read back as 0)
}

var errShort = errors.New("short payload")

func packFix(x uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, x); return b }
func unpFix(b []byte) (uint64, int, error) {
	if len(b) < 8 {
		return 0, 0, errShort
	}
	return binary.BigEndian.Uint64(b), 8, nil
}

// variable length: one length byte followed by the minimal big-endian bytes (zero is one byte long in total)
func packVar(x uint64) []byte {
	var t []byte
	for y := x; y > 0; y >>= 8 {
		t = append([]byte{byte(y)}, t...)
	}
	return append([]byte{byte(len(t))}, t...)
}
func unpVar(b []byte) (uint64, int, error) {
	if len(b) < 1 || len(b) < 1+int(b[0]) {
		return 0, 0, errShort
	}
	x := uint64(0)
	for _, c := range b[1 : 1+int(b[0])] {
		x = x<<8 | uint64(c)
	}
	return x, 1 + int(b[0]), nil
}

// long values: 8 bytes followed by 200 + v%100 filler bytes
func packLong(x uint64) []byte {
	b := packFix(x)
	for i := uint64(0); i < 200+x%100; i++ {
		b = append(b, byte(x+i))
	}
	return b
}
func unpLong(b []byte) (uint64, int, error) {
	x, _, err := unpFix(b)
	if err != nil {
		return 0, 0, err
	}
	n := 8 + 200 + int(x%100)
	if len(b) < n {
		return 0, 0, errShort
	}
	for i := 8; i < n; i++ {
		if b[i] != byte(x+uint64(i-8)) {
			return 0, 0, fmt.Errorf("value bytes damaged")
		}
	}
	return x, n, nil
}
func packNone(uint64) []byte                { return nil }
func unpNone(b []byte) (uint64, int, error) { return 0, 0, nil }

var codecs = []*Codec{
	{"fixed8", packFix, unpFix, packFix, unpFix, false},
	{"varlen", packVar, unpVar, packVar, unpVar, false},
	{"emptyvalue", packFix, unpFix, packNone, unpNone, true},
	{"longvalue", packVar, unpVar, packLong, unpLong, false},
}

// CB implements the client callbacks on a Store.
type CB struct {
	st  *Store
	c   *Codec
	box bool // keys and values are boxed
}

// Boxed keys are byte slices, boxed values slices or nil: types that cannot be compared
// with == or used as map keys. A boxed key ends in a tag the order ignores, so keys that
// compare equal can be told apart; a key read back from storage has none (zero).
func boxK(x uint64) sm.Key { return boxKT(x, 0) }
func boxKT(x uint64, tag uint32) sm.Key {
	return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint64(nil, x), tag)
}
func tagOf(k sm.Key) uint32 { return binary.BigEndian.Uint32(k.([]byte)[8:]) }
func boxV(x uint64) sm.Value {
	if x == 0 {
		return nil
	}
	return []uint64{x}
}
func unboxK(k sm.Key) (uint64, bool) {
	b, ok := k.([]byte)
	if !ok || len(b) != 12 {
		return 0, false
	}
	return binary.BigEndian.Uint64(b), true
}
func unboxV(v sm.Value) (uint64, bool) {
	if v == nil {
		return 0, true
	}
	b, ok := v.([]uint64)
	if !ok || len(b) != 1 || b[0] == 0 {
		return 0, false
	}
	return b[0], true
}

// boxedMap presents a map of boxed keys and values as one of uint64s. Every call names
// its key by a slice with a new tag; the key that was put is the one to come back.
type boxedMap struct {
	sm.SortedMap
	tags *boxTags
}
type boxTags struct {
	next uint32
	put  map[uint64]uint32
}

func newBoxedMap(m sm.SortedMap) boxedMap {
	return boxedMap{m, &boxTags{0, map[uint64]uint32{}}}
}
func (m boxedMap) key(k sm.Key) sm.Key {
	m.tags.next++
	return boxKT(k.(uint64), m.tags.next)
}

var errBox = errors.New("a key or value came back as something else")
var errTag = errors.New("the key that came back compares equal to the one that was put, but is not it")

func (m boxedMap) GetByKey(k sm.Key) (v sm.Value, ok bool, err error) {
	v, ok, err = m.SortedMap.GetByKey(m.key(k))
	if ok && err == nil {
		x, good := unboxV(v)
		if !good {
			return nil, false, errBox
		}
		v = x
	}
	return
}
func (m boxedMap) GetByIndex(i int) (k sm.Key, v sm.Value, ok bool, err error) {
	k, v, ok, err = m.SortedMap.GetByIndex(i)
	if ok && err == nil {
		x, good := unboxV(v)
		y, good2 := unboxK(k)
		if !good || !good2 {
			return nil, nil, false, errBox
		}
		if t := tagOf(k); t != 0 && t != m.tags.put[y] {
			return nil, nil, false, errTag
		}
		k, v = y, x
	}
	return
}
func (m boxedMap) Put(k sm.Key, v sm.Value) (bool, error) {
	ok, err := m.SortedMap.Put(m.key(k), boxV(v.(uint64)))
	if ok && err == nil {
		m.tags.put[k.(uint64)] = m.tags.next
	}
	return ok, err
}
func (m boxedMap) DeleteByKey(k sm.Key) (bool, error) {
	return m.SortedMap.DeleteByKey(m.key(k))
}
func (m boxedMap) PatchByKey(k sm.Key, v sm.Value) (bool, error) {
	return m.SortedMap.PatchByKey(m.key(k), boxV(v.(uint64)))
}
func (m boxedMap) PatchByIndex(i int, v sm.Value) (bool, error) {
	return m.SortedMap.PatchByIndex(i, boxV(v.(uint64)))
}
func (m boxedMap) BisectLeft(k sm.Key) (int, bool, error) {
	return m.SortedMap.BisectLeft(m.key(k))
}
func (m boxedMap) BisectRight(k sm.Key) (int, bool, error) {
	return m.SortedMap.BisectRight(m.key(k))
}

// boxedBT and boxedLLRB are the two kinds of tree over boxed keys and values.
type boxedBT struct {
	sm.BPlusTree
	m boxedMap
}

func (t boxedBT) GetByKey(k sm.Key) (sm.Value, bool, error)        { return t.m.GetByKey(k) }
func (t boxedBT) GetByIndex(i int) (sm.Key, sm.Value, bool, error) { return t.m.GetByIndex(i) }
func (t boxedBT) Put(k sm.Key, v sm.Value) (bool, error)           { return t.m.Put(k, v) }
func (t boxedBT) DeleteByKey(k sm.Key) (bool, error)               { return t.m.DeleteByKey(k) }
func (t boxedBT) PatchByKey(k sm.Key, v sm.Value) (bool, error)    { return t.m.PatchByKey(k, v) }
func (t boxedBT) PatchByIndex(i int, v sm.Value) (bool, error)     { return t.m.PatchByIndex(i, v) }
func (t boxedBT) BisectLeft(k sm.Key) (int, bool, error)           { return t.m.BisectLeft(k) }
func (t boxedBT) BisectRight(k sm.Key) (int, bool, error)          { return t.m.BisectRight(k) }

type boxedLLRB struct {
	sm.LLRBTree
	m boxedMap
}

func (t boxedLLRB) GetByKey(k sm.Key) (sm.Value, bool, error)        { return t.m.GetByKey(k) }
func (t boxedLLRB) GetByIndex(i int) (sm.Key, sm.Value, bool, error) { return t.m.GetByIndex(i) }
func (t boxedLLRB) Put(k sm.Key, v sm.Value) (bool, error)           { return t.m.Put(k, v) }
func (t boxedLLRB) DeleteByKey(k sm.Key) (bool, error)               { return t.m.DeleteByKey(k) }
func (t boxedLLRB) PatchByKey(k sm.Key, v sm.Value) (bool, error)    { return t.m.PatchByKey(k, v) }
func (t boxedLLRB) PatchByIndex(i int, v sm.Value) (bool, error)     { return t.m.PatchByIndex(i, v) }
func (t boxedLLRB) BisectLeft(k sm.Key) (int, bool, error)           { return t.m.BisectLeft(k) }
func (t boxedLLRB) BisectRight(k sm.Key) (int, bool, error)          { return t.m.BisectRight(k) }

// key and val see through the boxing.
func (c *CB) key(k sm.Key) (uint64, bool) {
	if c.box {
		return unboxK(k)
	}
	x, ok := k.(uint64)
	return x, ok
}
func (c *CB) val(v sm.Value) (uint64, bool) {
	if c.box {
		return unboxV(v)
	}
	x, ok := v.(uint64)
	return x, ok
}

// strayKey and strayVal come along with an error and must be ignored.
func (c *CB) strayKey() sm.Key {
	if c.box {
		return boxK(987654321)
	}
	return uint64(987654321)
}
func (c *CB) strayVal() sm.Value {
	if c.box {
		return boxV(987654321)
	}
	return uint64(987654321)
}

func (c *CB) GetNode(n, o, l uint64) ([]byte, error)   { return c.st.get(Loc{n, o, l}) }
func (c *CB) PutNode(b []byte) (uint64, uint64, error) { return c.st.put(b) }
func (c *CB) DiscardNode(n, o, l uint64) error         { return c.st.discard(Loc{n, o, l}) }
func (c *CB) PackKey(k sm.Key) ([]byte, error) {
	if c.st.tick(cbPackKey) {
		return []byte{0xee, 0xee, 0xee}, errFault
	}
	x, ok := c.key(k)
	if !ok {
		return nil, fmt.Errorf("PackKey(%T)", k)
	}
	if c.st.tracing {
		c.st.trace = append(c.st.trace, traceEv{kind: cbPackKey, key: x})
	}
	return c.st.pack(c.c.packK(x)), nil
}
func (c *CB) UnpackKey(b []byte) (sm.Key, uint64, error) {
	if c.st.tick(cbUnpackKey) {
		return c.strayKey(), 8, errFault
	}
	x, n, err := c.c.unpK(b)
	if err != nil {
		return nil, 0, err
	}
	if c.box {
		return boxK(x), uint64(n), nil
	}
	return x, uint64(n), nil
}
func (c *CB) PackValue(v sm.Value) ([]byte, error) {
	if c.st.tick(cbPackValue) {
		return []byte{0xee}, errFault
	}
	x, ok := c.val(v)
	if !ok {
		return nil, fmt.Errorf("PackValue(%T)", v)
	}
	if c.st.tracing {
		c.st.trace = append(c.st.trace, traceEv{kind: cbPackValue, key: x})
	}
	return c.st.pack(c.c.packV(x)), nil
}
func (c *CB) UnpackValue(b []byte) (sm.Value, uint64, error) {
	if c.st.tick(cbUnpackValue) {
		return c.strayVal(), 1, errFault
	}
	x, n, err := c.c.unpV(b)
	if err != nil {
		return nil, 0, err
	}
	if c.box {
		return boxV(x), uint64(n), nil
	}
	return x, uint64(n), nil
}
func (c *CB) DumpKey(k sm.Key) (string, error) {
	if c.st.tick(cbDumpKey) {
		return "stray", errFault
	}
	x, _ := c.key(k)
	return fmt.Sprintf("<K%v>", x), nil
}
func (c *CB) DumpValue(v sm.Value) (string, error) {
	if c.st.tick(cbDumpValue) {
		return "stray", errFault
	}
	x, _ := c.val(v)
	return fmt.Sprintf("<V%v>", x), nil
}

// ---------------------------------------------------------------- shapes from callback traces

// Shape of a written tree, read off the callback trace of a flush that wrote every
// node (children before parents): independent of the byte format.
type Shape struct {
	seps  []uint64
	vals  []KV
	kids  []*Shape
	loc   Loc
	depth int
}

func (s *Shape) leaf() bool { return len(s.kids) == 0 }

func (s *Shape) nodes() int {
	n := 1
	for _, k := range s.kids {
		n += k.nodes()
	}
	return n
}

func (s *Shape) allSeps(out []uint64) []uint64 {
	for i, k := range s.kids {
		if i > 0 {
			out = append(out, s.seps[i-1])
		}
		out = k.allSeps(out)
	}
	return out
}

// shapeFromTrace rebuilds the tree from a full flush trace (post-order).
func shapeFromTrace(tr []traceEv) (*Shape, error) {
	var stack []*Shape
	var keys, vals []uint64
	for _, e := range tr {
		switch e.kind {
		case cbPackKey:
			keys = append(keys, e.key)
		case cbPackValue:
			vals = append(vals, e.key)
		case cbPut:
			n := &Shape{loc: e.loc}
			if len(vals) > 0 || (len(keys) == 0 && len(stack) == 0) {
				if len(vals) != len(keys) {
					return nil, fmt.Errorf("leaf written with %d keys and %d values", len(keys), len(vals))
				}
				for i := range keys {
					n.vals = append(n.vals, KV{keys[i], vals[i]})
				}
			} else {
				c := len(keys) + 1
				if len(stack) < c {
					return nil, fmt.Errorf("non-leaf written with %d keys but only %d nodes written before it", len(keys), len(stack))
				}
				n.seps = append(n.seps, keys...)
				n.kids = append(n.kids, stack[len(stack)-c:]...)
				stack = stack[:len(stack)-c]
				for _, k := range n.kids {
					if k.depth+1 > n.depth {
						n.depth = k.depth + 1
					}
				}
			}
			keys, vals = nil, nil
			stack = append(stack, n)
		}
	}
	if len(stack) != 1 {
		return nil, fmt.Errorf("flush left %d unconnected nodes", len(stack))
	}
	return stack[0], nil
}

// checkShape checks separators, uniform depth and occupancy.
func checkShape(s *Shape, order int) error {
	var items []KV
	var walk func(n *Shape, root bool, lo, hi *uint64) error
	walk = func(n *Shape, root bool, lo, hi *uint64) error {
		if n.leaf() {
			if !root && len(n.vals) < order/2 {
				return fmt.Errorf("leaf holds %d keys, fewer than half the capacity %d", len(n.vals), order)
			}
			if len(n.vals) > order {
				return fmt.Errorf("leaf holds %d keys, more than the capacity %d", len(n.vals), order)
			}
			for _, e := range n.vals {
				if (lo != nil && e.K < *lo) || (hi != nil && e.K >= *hi) {
					return fmt.Errorf("key %d outside its node's separators", e.K)
				}
			}
			items = append(items, n.vals...)
			return nil
		}
		min := order / 2
		if root {
			min = 1
		}
		if len(n.seps) < min || len(n.seps) > order {
			return fmt.Errorf("non-leaf (root=%v) holds %d keys, capacity %d", root, len(n.seps), order)
		}
		for i, k := range n.kids {
			if k.depth != n.kids[0].depth {
				return fmt.Errorf("leaves at different depths")
			}
			l, h := lo, hi
			if i > 0 {
				l = &n.seps[i-1]
			}
			if i < len(n.seps) {
				h = &n.seps[i]
			}
			if err := walk(k, false, l, h); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(s, true, nil, nil); err != nil {
		return err
	}
	for i := 1; i < len(items); i++ {
		if items[i-1].K >= items[i].K {
			return fmt.Errorf("keys out of order on disk")
		}
	}
	return nil
}

// canon gives a canonical string of the shape: node sizes and separator staleness by rank.
func (s *Shape) canon() string {
	var b []byte
	prev := uint64(0)
	has := false
	var walk func(n *Shape)
	var pend []uint64 // separators waiting for the next key
	walk = func(n *Shape) {
		if n.leaf() {
			b = append(b, byte('0'+len(n.vals)%64))
			for _, e := range n.vals {
				for _, sp := range pend {
					if sp == e.K {
						b = append(b, '=')
					} else {
						b = append(b, '<')
					}
				}
				pend = nil
				prev, has = e.K, true
			}
			return
		}
		b = append(b, '(')
		for i, k := range n.kids {
			if i > 0 {
				pend = append(pend, n.seps[i-1])
			}
			walk(k)
		}
		b = append(b, ')')
	}
	walk(s)
	_ = prev
	_ = has
	return string(b)
}
