package main

import (
	"encoding/binary"
	"fmt"
)

// Independent decoder/encoder of the documented on-disk layout (little endian):
//   items u64, root u8, leaf u8, [root: capacity u64],
//   leaf:     count u64, count * (key, value)
//   non-leaf: count u64, ref, (count-1) * (key, ref);  ref = number, offset, length, items (u64 each)

type rawRef struct{ num, off, length, items uint64 }

type rawNode struct {
	items uint64
	root  bool
	leaf  bool
	cap   uint64
	vals  []KV
	seps  []uint64
	refs  []rawRef
}

func decodeNode(b []byte, c *Codec) (*rawNode, error) {
	r := &rawNode{}
	u64 := func() (uint64, error) {
		if len(b) < 8 {
			return 0, errShort
		}
		x := binary.LittleEndian.Uint64(b)
		b = b[8:]
		return x, nil
	}
	flag := func() (bool, error) {
		if len(b) < 1 {
			return false, errShort
		}
		x := b[0]
		b = b[1:]
		if x > 1 {
			return false, fmt.Errorf("flag byte %d", x)
		}
		return x == 1, nil
	}
	ref := func() (rawRef, error) {
		var v [4]uint64
		for i := range v {
			x, err := u64()
			if err != nil {
				return rawRef{}, err
			}
			v[i] = x
		}
		return rawRef{v[0], v[1], v[2], v[3]}, nil
	}
	var err error
	if r.items, err = u64(); err != nil {
		return nil, err
	}
	if r.root, err = flag(); err != nil {
		return nil, err
	}
	if r.leaf, err = flag(); err != nil {
		return nil, err
	}
	if r.root {
		if r.cap, err = u64(); err != nil {
			return nil, err
		}
	}
	n, err := u64()
	if err != nil {
		return nil, err
	}
	if n > 1<<20 {
		return nil, fmt.Errorf("count %d", n)
	}
	for i := uint64(0); i < n; i++ {
		if r.leaf || i > 0 {
			k, m, err := c.unpK(b)
			if err != nil {
				return nil, err
			}
			b = b[m:]
			if r.leaf {
				v, m, err := c.unpV(b)
				if err != nil {
					return nil, err
				}
				b = b[m:]
				r.vals = append(r.vals, KV{k, v})
				continue
			}
			r.seps = append(r.seps, k)
		}
		rf, err := ref()
		if err != nil {
			return nil, err
		}
		r.refs = append(r.refs, rf)
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d trailing bytes", len(b))
	}
	return r, nil
}

func encodeNode(r *rawNode, c *Codec) []byte {
	var b []byte
	u64 := func(x uint64) { b = binary.LittleEndian.AppendUint64(b, x) }
	flag := func(x bool) {
		if x {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	}
	u64(r.items)
	flag(r.root)
	flag(r.leaf)
	if r.root {
		u64(r.cap)
	}
	if r.leaf {
		u64(uint64(len(r.vals)))
		for _, e := range r.vals {
			b = append(b, c.packK(e.K)...)
			b = append(b, c.packV(e.V)...)
		}
		return b
	}
	u64(uint64(len(r.refs)))
	for i, f := range r.refs {
		if i > 0 {
			b = append(b, c.packK(r.seps[i-1])...)
		}
		u64(f.num)
		u64(f.off)
		u64(f.length)
		u64(f.items)
	}
	return b
}

// decodeTree reads the whole tree under root from the store and checks that item
// totals, references and flags are truthful.
func decodeTree(st *Store, root Loc, c *Codec) (*Shape, uint64, error) {
	capacity := uint64(0)
	seen := map[Loc]bool{}
	var rec func(l Loc, isRoot bool, depth int) (*Shape, uint64, error)
	rec = func(l Loc, isRoot bool, depth int) (*Shape, uint64, error) {
		if depth > 40 {
			return nil, 0, fmt.Errorf("image nests deeper than 40 levels")
		}
		b := st.objs[l]
		if b == nil {
			return nil, 0, fmt.Errorf("location %v is not allocated", l)
		}
		if seen[l] {
			return nil, 0, fmt.Errorf("location %v referenced twice", l)
		}
		seen[l] = true
		r, err := decodeNode(b.copy, c)
		if err != nil {
			return nil, 0, fmt.Errorf("node at %v: %w (bytes %x)", l, err, b.copy)
		}
		if r.root != isRoot {
			return nil, 0, fmt.Errorf("node at %v: root flag %v", l, r.root)
		}
		if isRoot {
			capacity = r.cap
		}
		s := &Shape{loc: l, seps: r.seps, vals: r.vals}
		tot := uint64(len(r.vals))
		if !r.leaf {
			if len(r.refs) == 0 {
				return nil, 0, fmt.Errorf("node at %v: non-leaf without children", l)
			}
			for _, f := range r.refs {
				k, n, err := rec(Loc{f.num, f.off, f.length}, false, depth+1)
				if err != nil {
					return nil, 0, err
				}
				if n != f.items {
					return nil, 0, fmt.Errorf("node at %v: child %v said to hold %d items, holds %d", l, k.loc, f.items, n)
				}
				tot += n
				s.kids = append(s.kids, k)
				if k.depth+1 > s.depth {
					s.depth = k.depth + 1
				}
			}
		}
		if r.items != tot {
			return nil, 0, fmt.Errorf("node at %v: said to hold %d items, holds %d", l, r.items, tot)
		}
		return s, tot, nil
	}
	s, _, err := rec(root, true, 0)
	return s, capacity, err
}

// shapeItems lists the items under s in order.
func shapeItems(s *Shape) Model {
	var m Model
	var w func(n *Shape)
	w = func(n *Shape) {
		m = append(m, n.vals...)
		for _, k := range n.kids {
			w(k)
		}
	}
	w(s)
	return m
}

// locs lists the locations under s.
func (s *Shape) locs(set map[Loc]bool) map[Loc]bool {
	if set == nil {
		set = map[Loc]bool{}
	}
	set[s.loc] = true
	for _, k := range s.kids {
		k.locs(set)
	}
	return set
}

// writeShape encodes a shape into the store with the independent encoder and returns the root location.
func writeShape(st *Store, s *Shape, capacity uint64, c *Codec) Loc {
	var rec func(n *Shape, root bool) (Loc, uint64)
	rec = func(n *Shape, root bool) (Loc, uint64) {
		r := &rawNode{root: root, leaf: n.leaf(), cap: capacity, vals: n.vals, seps: n.seps}
		r.items = uint64(len(n.vals))
		for _, k := range n.kids {
			l, it := rec(k, false)
			r.refs = append(r.refs, rawRef{l.Num, l.Off, l.Len, it})
			r.items += it
		}
		b := encodeNode(r, c)
		num, off, _ := st.put(b)
		n.loc = Loc{num, off, uint64(len(b))}
		return n.loc, r.items
	}
	l, _ := rec(s, true)
	return l
}
