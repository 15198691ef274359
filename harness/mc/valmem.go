package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	sm "github.com/NVIDIA/sortedmap"
)

// Validate against disagreeing counts in memory (C09): in a tree whose nodes are all
// resident, every maintained count (and every pair of counts) is made wrong in turn.

// memCounts lists the counts Validate is to verify, where the tree's nodes have them under
// these names; those of nodes not part of the tree, and of the root, are left out.
// So are the links between a node and its parent, and within the tree of prefix sums.
func memCounts(x any) (refs []reflect.Value, names []string, links []reflect.Value, lnames []string) {
	pkg := reflect.TypeOf((*sm.LLRBTree)(nil)).Elem().PkgPath()
	seen := map[uintptr]bool{}
	first := true
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Interface:
			walk(v.Elem(), depth)
		case reflect.Ptr:
			if !v.IsNil() && v.Elem().Kind() == reflect.Struct && v.Elem().Type().PkgPath() == pkg && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if v.Type().PkgPath() != pkg {
				return
			}
			root := false
			if v.FieldByName("items").IsValid() {
				root, first = first, false
			}
			for i := 0; i < v.NumField(); i++ {
				n, f := v.Type().Field(i).Name, v.Field(i)
				if f.Type() == reflect.PointerTo(v.Type()) && !f.IsNil() && (n == "rootPrefixSumChild" || !root && (n == "parentNode" || n == "prefixSumParent" || n == "prefixSumLeftChild" || n == "prefixSumRightChild")) {
					links = append(links, reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
					lnames = append(lnames, fmt.Sprintf("%s of node %d", n, len(seen)))
				}
				switch {
				case (n == "len" && f.Kind() == reflect.Int) || (f.Kind() == reflect.Uint64 && (n == "items" || n == "prefixSumItems" && !root)):
					refs = append(refs, reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
					names = append(names, fmt.Sprintf("%s of node %d", n, len(seen)))
				case n == "nodeCache" || n == "tree" || n == "parentNode" || n == "btreeNodeCacheElement" || strings.HasPrefix(n, "prefixSum") || n == "rootPrefixSumChild":
				default:
					walk(f, depth)
				}
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
	return
}

func bump(v reflect.Value, d int64) {
	if v.Kind() == reflect.Int {
		v.SetInt(v.Int() + d)
		return
	}
	v.SetUint(v.Uint() + uint64(d))
}

var memDeltas = []int64{1, -1, 2, 1 << 32, -1 << 63}

func caseValMemLLRB(w *Worker, p []int64) error {
	l := newLLRBWorld()
	if err := replayLLRB(l, p); err != nil {
		return err
	}
	return valMem(w, l.t)
}

func caseValMemBT(w *Worker, p []int64) error {
	b, err := startBW(w, p, 0, codecs[0])
	if err != nil {
		return err
	}
	return valMem(w, b.t)
}

func valMem(w *Worker, t sm.SortedMap) error {
	if err := validate(t); err != nil {
		return err
	}
	refs, names, links, lnames := memCounts(t)
	try := func(what string) error {
		err := safely(func() error {
			if t.Validate() == nil {
				return fmt.Errorf("Validate accepts a tree in memory with %s", what)
			}
			return nil
		})
		if errors.As(err, &panicErr{}) {
			return nil // it did not accept the tree
		}
		return err
	}
	for i, a := range refs {
		for _, d := range memDeltas {
			bump(a, d)
			err := try(fmt.Sprintf("the %s off by %d", names[i], d))
			bump(a, -d)
			w.r.trans.Add(1)
			if err != nil {
				return err
			}
		}
		for j := i + 1; j < len(refs) && len(refs) <= 100; j++ {
			for _, d := range []int64{1, -1} {
				bump(a, 1)
				bump(refs[j], d)
				err := try(fmt.Sprintf("the %s off by 1 and the %s by %d", names[i], names[j], d))
				bump(a, -1)
				bump(refs[j], -d)
				w.r.trans.Add(1)
				if err != nil {
					return err
				}
			}
		}
	}
	for i, a := range links {
		was := reflect.New(a.Type()).Elem()
		was.Set(a)
		a.SetZero()
		err := try(fmt.Sprintf("the %s lost", lnames[i]))
		a.Set(was)
		w.r.trans.Add(1)
		if err != nil {
			return err
		}
	}
	if err := validate(t); err != nil {
		return fmt.Errorf("with its counts restored: %w", err)
	}
	return nil
}

func exploreValMem(r *Run) {
	exploreLLRB(r, 6, 2000, nil, []string{"valmem.llrb"})
	var cs [][]int64
	for _, sp := range append(imageSpecs(2, 5), imageSpecs(3, 2)...) {
		cs = append(cs, append([]int64{4, imageStart, int64(len(sp))}, sp...))
	}
	for _, order := range []int64{4, 6, 8} {
		for pat := 0; pat < nPatterns; pat++ {
			for n := 1; n <= 40; n++ {
				for _, del := range []int{0, 1, n / 3} {
					h := []int64{order}
					for i, k := range patternKeys(pat, n) {
						h = append(h, oPut, int64(k), int64(i))
					}
					for i := 0; i < del; i++ {
						h = append(h, oDelI, int64((i*5)%(n-i)), 0)
					}
					cs = append(cs, h)
				}
			}
		}
	}
	r.each(len(cs), func(w *Worker, i int) {
		if w.do("valmem.bt", cs[i]) {
			r.nontriv.Add(1)
		}
	})
	r.part("resident B+trees with every count made wrong in turn", int64(len(cs)))
}

func init() {
	kinds["valmem.llrb"] = caseValMemLLRB
	kinds["valmem.bt"] = caseValMemBT
}
