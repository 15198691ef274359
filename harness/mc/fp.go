package main

import (
	"reflect"
	"strings"
	"unsafe"

	sm "github.com/NVIDIA/sortedmap"
)

// fingerprint hashes the in-memory object graph under x, with pointers numbered by
// first visit, maps hashed independently of order, functions skipped and pure
// statistics counters (fields named ...Hits / ...Misses) skipped. Values for which
// opaque returns true are not entered. It only serves to keep several differently
// represented histories of the same observable state, and to prune repeated states.
func fingerprint(mapKey func(uint64) uint64, xs ...any) uint64 {
	h := &hasher{h: 14695981039346656037, seen: map[uintptr]int{}, mapKey: mapKey}
	for _, x := range xs {
		h.val(reflect.ValueOf(x), 0)
	}
	return h.h
}

type hasher struct {
	h      uint64
	seen   map[uintptr]int
	mapKey func(uint64) uint64
	loc    func(off uint64, inMap bool) (uint64, bool) // renames recognisable locations
	inMap  bool
}

func (h *hasher) add(x uint64) {
	for i := 0; i < 8; i++ {
		h.h = (h.h ^ (x & 0xff)) * 1099511628211
		x >>= 8
	}
}

func (h *hasher) str(s string) {
	for i := 0; i < len(s); i++ {
		h.h = (h.h ^ uint64(s[i])) * 1099511628211
	}
}

var llrbType = reflect.TypeOf((*sm.LLRBTree)(nil)).Elem()
var cbType = reflect.TypeOf((*CB)(nil))

func (h *hasher) val(v reflect.Value, depth int) {
	if depth > 4000 {
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		h.add(0)
	case reflect.Bool:
		if v.Bool() {
			h.add(3)
		} else {
			h.add(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.add(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if h.loc != nil {
			if x, ok := h.loc(v.Uint(), h.inMap); ok {
				h.add(x)
				return
			}
			if h.inMap {
				return // the length of a superseded node
			}
		}
		h.add(v.Uint())
	case reflect.Float32, reflect.Float64:
		h.add(uint64(v.Float()))
	case reflect.String:
		h.str(v.String())
	case reflect.Interface:
		if v.IsNil() {
			h.add(1)
			return
		}
		if h.loc != nil && v.Type() == llrbType && v.CanAddr() {
			// an ordered map within the tree: its items, not its shape
			t := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Interface().(sm.LLRBTree)
			n, err := t.Len()
			h.add(uint64(n))
			for i := 0; i < n && err == nil; i++ {
				var k sm.Key
				var e sm.Value
				k, e, _, err = t.GetByIndex(i)
				h.val(reflect.ValueOf(&k).Elem(), depth+1)
				h.val(reflect.ValueOf(&e).Elem(), depth+1)
			}
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Uint64 && h.mapKey != nil {
			h.add(h.mapKey(e.Uint()))
			return
		}
		h.str(e.Type().String())
		h.val(e, depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			h.add(1)
			return
		}
		if v.Type() == cbType {
			h.add(5)
			return
		}
		p := v.Pointer()
		if n, ok := h.seen[p]; ok {
			h.add(uint64(n) + 100)
			return
		}
		h.seen[p] = len(h.seen)
		h.val(v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			n := t.Field(i).Name
			if strings.HasSuffix(n, "Hits") || strings.HasSuffix(n, "Misses") {
				continue
			}
			h.val(v.Field(i), depth+1)
		}
	case reflect.Slice:
		h.add(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i), depth+1)
		}
	case reflect.Map:
		var sum uint64
		save := h.h
		var kinds map[uint64]int
		if h.loc != nil {
			if v.Type().Key().Kind() == reflect.Struct {
				h.inMap, kinds = true, map[uint64]int{}
				defer func() { h.inMap = false }()
			}
		}
		for it := v.MapRange(); it.Next(); {
			h.h = 14695981039346656037
			h.val(it.Key(), depth+1)
			h.val(it.Value(), depth+1)
			if kinds != nil { // many alike count as one
				kinds[h.h]++
				if kinds[h.h] > 1 {
					continue
				}
			}
			sum += h.h
		}
		h.h = save
		h.add(sum)
	}
}

// fingerprintLoc is fingerprint with locations renamed.
func fingerprintLoc(loc func(uint64, bool) (uint64, bool), xs ...any) uint64 {
	h := &hasher{h: 14695981039346656037, seen: map[uintptr]int{}, loc: loc}
	for _, x := range xs {
		h.val(reflect.ValueOf(x), 0)
	}
	return h.h
}

// boxes counts the keys and values (uint64s held in interfaces) reachable from x in
// memory, other than through the client callbacks.
func boxes(x any) int {
	n := 0
	seen := map[[2]uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 4000 {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				if v.Elem().Kind() == reflect.Uint64 {
					n++
				} else {
					walk(v.Elem(), depth+1)
				}
			}
		case reflect.Ptr:
			if v.IsNil() || v.Type() == cbType {
				return
			}
			k := [2]uintptr{v.Pointer(), reflect.ValueOf(v.Type()).Pointer()}
			if !seen[k] {
				seen[k] = true
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice {
				switch v.Type().Elem().Kind() {
				case reflect.Uint8, reflect.Uint64, reflect.Int, reflect.String:
					return
				}
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Key(), depth+1)
				walk(it.Value(), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
	return n
}
