package sortedmap

import (
	"encoding/binary"
	"fmt"
	"sync"
	"testing"
	"time"
)

// memStore keeps nodes in memory; every location is handed out once.
type memStore struct {
	sync.Mutex
	objs      map[[3]uint64][]byte
	gone      map[[3]uint64]bool
	next      uint64
	bad       []string
	puts      int
	gets      int
	onGet     func([3]uint64, []byte) ([]byte, error)
	onPut     func() error
	onDiscard func([3]uint64) error
	onPack    func() error
	onUnpack  func() error
	onDumpKey func() error
}

func newMemStore() *memStore {
	return &memStore{objs: map[[3]uint64][]byte{}, gone: map[[3]uint64]bool{}, next: 1}
}

func (s *memStore) DumpKey(key Key) (string, error) {
	if s.onDumpKey != nil {
		if err := s.onDumpKey(); err != nil {
			return "", err
		}
	}
	return fmt.Sprint(key), nil
}
func (s *memStore) DumpValue(value Value) (string, error) { return fmt.Sprint(value), nil }
func (s *memStore) GetNode(n, o, l uint64) ([]byte, error) {
	s.Lock()
	defer s.Unlock()
	k := [3]uint64{n, o, l}
	s.gets++
	b, ok := s.objs[k]
	if !ok {
		s.bad = append(s.bad, fmt.Sprintf("read of %v", k))
		return nil, fmt.Errorf("no node at %v", k)
	}
	b = append([]byte{}, b...)
	if s.onGet != nil {
		return s.onGet(k, b)
	}
	return b, nil
}
func (s *memStore) PutNode(b []byte) (uint64, uint64, error) {
	s.Lock()
	defer s.Unlock()
	if s.onPut != nil {
		if err := s.onPut(); err != nil {
			return 0, 0, err
		}
	}
	s.puts++
	s.next++
	n, o := s.next/3+1, (s.next%3)*4096
	s.objs[[3]uint64{n, o, uint64(len(b))}] = append([]byte{}, b...)
	return n, o, nil
}
func (s *memStore) DiscardNode(n, o, l uint64) error {
	s.Lock()
	defer s.Unlock()
	k := [3]uint64{n, o, l}
	if s.onDiscard != nil {
		if err := s.onDiscard(k); err != nil {
			return err
		}
	}
	if _, ok := s.objs[k]; !ok {
		s.bad = append(s.bad, fmt.Sprintf("discard of %v", k))
		return fmt.Errorf("no node at %v", k)
	}
	delete(s.objs, k)
	s.gone[k] = true
	return nil
}
func (s *memStore) PackKey(key Key) ([]byte, error) {
	if s.onPack != nil {
		if err := s.onPack(); err != nil {
			return nil, err
		}
	}
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, key.(uint32))
	return b, nil
}
func (s *memStore) UnpackKey(p []byte) (Key, uint64, error) {
	if s.onUnpack != nil {
		if err := s.onUnpack(); err != nil {
			return nil, 0, err
		}
	}
	if len(p) < 4 {
		return nil, 0, fmt.Errorf("short key")
	}
	return binary.LittleEndian.Uint32(p), 4, nil
}
func (s *memStore) PackValue(v Value) ([]byte, error) { return s.PackKey(v) }
func (s *memStore) UnpackValue(p []byte) (Value, uint64, error) {
	return s.UnpackKey(p)
}

func (s *memStore) snapshot() map[[3]uint64][]byte {
	s.Lock()
	defer s.Unlock()
	m := map[[3]uint64][]byte{}
	for k, v := range s.objs {
		m[k] = v
	}
	return m
}

func (s *memStore) check(t *testing.T) {
	t.Helper()
	if len(s.bad) != 0 {
		t.Fatalf("bad accesses: %v", s.bad)
	}
}

// ku is CompareUint32.
func ku(a, b Key) (int, error) { return CompareUint32(a, b) }

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func put(t *testing.T, tree SortedMap, ks ...int) {
	t.Helper()
	for _, k := range ks {
		ok, err := tree.Put(uint32(k), uint32(k+1000))
		if err != nil || !ok {
			t.Fatalf("Put(%v): %v %v", k, ok, err)
		}
	}
}

func del(t *testing.T, tree SortedMap, ks ...int) {
	t.Helper()
	for _, k := range ks {
		ok, err := tree.DeleteByKey(uint32(k))
		if err != nil || !ok {
			t.Fatalf("DeleteByKey(%v): %v %v", k, ok, err)
		}
	}
}

func seq(from, to, step int) (r []int) {
	for i := from; i < to; i += step {
		r = append(r, i)
	}
	return
}

// content checks that tree holds exactly ks (ascending), by index and by key.
func content(t *testing.T, tree SortedMap, ks []int) {
	t.Helper()
	n, err := tree.Len()
	if err != nil || n != len(ks) {
		t.Fatalf("Len: %v %v, want %v", n, err, len(ks))
	}
	for i, k := range ks {
		key, val, ok, err := tree.GetByIndex(i)
		if err != nil || !ok || key.(uint32) != uint32(k) {
			t.Fatalf("GetByIndex(%v): %v %v %v, want key %v", i, key, ok, err, k)
		}
		v, ok, err := tree.GetByKey(uint32(k))
		if err != nil || !ok || v != val {
			t.Fatalf("GetByKey(%v): %v %v %v", k, v, ok, err)
		}
		x, found, err := tree.BisectLeft(uint32(k))
		if err != nil || !found || x != i {
			t.Fatalf("BisectLeft(%v): %v %v %v", k, x, found, err)
		}
	}
	must(t, tree.Validate())
}

func within(t *testing.T, d time.Duration, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: %v", what, r)
		}
	case <-time.After(d):
		t.Fatalf("%s hangs", what)
	}
}

// churn runs a fixed pseudo-random history of inserts and deletes on a capacity-4 tree, flushing,
// reopening and pruning every step operations, and calls f (if any) after each round.
func churn(t *testing.T, seed uint32, rounds, step int, purge bool, cache BPlusTreeCache, f func(tree BPlusTree, s *memStore, ks []int)) {
	t.Helper()
	s := newMemStore()
	tree := NewBPlusTree(4, ku, s, cache)
	have := map[int]bool{}
	rnd := func(n int) int {
		seed = seed*1664525 + 1013904223
		return int(seed>>8) % n
	}
	for r := 0; r < rounds; r++ {
		for i := 0; i < step; i++ {
			k := rnd(150)
			grow := (r/15)%2 == 0
			if have[k] && (!grow || rnd(4) == 0) {
				del(t, tree, k)
				delete(have, k)
			} else if !have[k] && (grow || rnd(4) == 0) {
				put(t, tree, k)
				have[k] = true
			}
		}
		var ks []int
		for k := 0; k < 150; k++ {
			if have[k] {
				ks = append(ks, k)
			}
		}
		n, o, l, err := tree.Flush(purge)
		must(t, err)
		again, err := OldBPlusTree(n, o, l, ku, s, nil)
		must(t, err)
		content(t, again, ks)
		must(t, tree.Prune())
		rep, err := again.FetchLayoutReport()
		must(t, err)
		total, want := uint64(0), uint64(0)
		for _, b := range rep {
			total += b
		}
		for k := range s.objs {
			want += k[2]
		}
		if total != want {
			t.Fatalf("%d bytes reachable, %d bytes allocated", total, want)
		}
		s.check(t)
		if f != nil {
			f(tree, s, ks)
		}
	}
	must(t, tree.Discard())
	if len(s.objs) != 0 {
		t.Fatalf("%d nodes left after Discard", len(s.objs))
	}
	s.check(t)
}
