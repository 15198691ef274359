package main

import (
	"fmt"
	"strings"

	sm "github.com/NVIDIA/sortedmap"
)

// bt.content p=[order, hist...]: the map content, in several configurations.
func caseBTContent(cfgs []int, patch bool) func(w *Worker, p []int64) error {
	return func(w *Worker, p []int64) error {
		for _, cfg := range cfgs {
			b, err := startBW(w, p, cfg, codecs[0])
			if err != nil {
				return fmt.Errorf("[config %d] %w", cfg, err)
			}
			if err := btFull(b, patch); err != nil {
				return fmt.Errorf("[config %d] %w", cfg, err)
			}
		}
		return nil
	}
}

func btFull(b *BW, patch bool) error {
	if err := checkAll(b.t, &b.m); err != nil {
		return err
	}
	if err := validate(b.t); err != nil {
		return err
	}
	if patch {
		for i := range b.m {
			if err := b.step(oPat, b.m[i].K, uint64(1000*i)); err != nil {
				return err
			}
			if err := b.step(oPatI, uint64(len(b.m)-1-i), uint64(2000*(len(b.m)-1-i))); err != nil {
				return err
			}
			if err := checkLight(b.t, &b.m); err != nil {
				return err
			}
		}
		if err := validate(b.t); err != nil {
			return err
		}
		if err := checkAll(b.t, &b.m); err != nil {
			return err
		}
	}
	if b.st.bad != nil {
		return b.st.bad
	}
	return nil
}

// bt.light: after the history, quick content check and Validate.
func caseBTLight(w *Worker, p []int64) error {
	b, err := startBW(w, p, 0, codecs[0])
	if err != nil {
		return err
	}
	if err := validate(b.t); err != nil {
		return err
	}
	return checkLight(b.t, &b.m)
}

// bt.ctor p=[capacity, cfg]
func caseBTCtor(w *Worker, p []int64) error {
	order := uint64(p[0])
	bad := order < 4 || order%2 == 1
	err := safely(func() error {
		b := newBW(w, order, int(p[1]), codecs[0])
		if bad {
			return nil
		}
		for k := uint64(0); k < 3; k++ {
			if e := b.step(oPut, k, k); e != nil {
				return e
			}
		}
		return checkAll(b.t, &b.m)
	})
	if bad {
		if _, ok := err.(panicErr); !ok {
			return fmt.Errorf("NewBPlusTree accepted capacity %d (%v)", order, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("capacity %d: %w", order, err)
	}
	return nil
}

// bt.large p=[pattern, n, delPattern, order, cfg]
func caseBTLarge(w *Worker, p []int64) error {
	pat, n, del := int(p[0]), int(p[1]), int(p[2])
	b := newBW(w, uint64(p[3]), int(p[4]), codecs[0])
	ck := func(full bool) error {
		if err := validate(b.t); err != nil {
			return err
		}
		if full {
			return checkAll(b.t, &b.m)
		}
		return checkLight(b.t, &b.m)
	}
	for i, k := range patternKeys(pat, n) {
		if err := b.step(oPut, k, k+uint64(i)); err != nil {
			return err
		}
		if (i+1)%(n/6+1) == 0 {
			if err := ck(false); err != nil {
				return err
			}
		}
	}
	if err := ck(true); err != nil {
		return err
	}
	for j, i := range delOrder(del, n) {
		var err error
		if i >= len(b.m) {
			i = len(b.m) - 1
		}
		if j%2 == 0 {
			err = b.step(oDelI, uint64(i), 0)
		} else {
			err = b.step(oDel, b.m[i].K, 0)
		}
		if err != nil {
			return err
		}
		if (j+1)%(n/6+1) == 0 {
			if err := ck(j > n/2); err != nil {
				return err
			}
		}
		if j == n*3/4 && del%2 == 0 {
			for x := 0; x < n/4; x++ {
				if err := b.step(oPut, uint64(x*32+5), uint64(x)); err != nil {
					return err
				}
			}
			if err := ck(true); err != nil {
				return err
			}
			break
		}
	}
	return ck(true)
}

func btLarge(r *Run, kind string, sizes []int, orders []int, cfgs []int) {
	var cs [][]int64
	for _, n := range sizes {
		for _, o := range orders {
			for _, c := range cfgs {
				for pat := 0; pat < nPatterns; pat++ {
					for d := 0; d < nDelPatterns; d++ {
						cs = append(cs, []int64{int64(pat), int64(n), int64(d), int64(o), int64(c)})
					}
				}
			}
		}
	}
	r.each(len(cs), func(w *Worker, i int) {
		w.do(kind, cs[i])
		r.part("large b+tree histories", 1)
		r.trans.Add(cs[i][1])
	})
	if r.expired() && !r.stop.Load() {
		r.over("large b+tree histories")
	}
}

func init() {
	kinds["bt.content"] = caseBTContent([]int{0, cfCB, cfCB | cfCache, cfCB | cfCache | cfFlush, cfCB | cfPurge, cfBox, cfBox | cfCB | cfPurge}, true)
	kinds["bt.light"] = caseBTLight
	kinds["bt.ctor"] = caseBTCtor
	kinds["bt.large"] = caseBTLarge
	describe["bt.content"] = btHistStr
	describe["bt.light"] = btHistStr
	levels["C02"] = "model_checking"
	assumptions["C02"] = []string{
		"keys are uint64 ordered by a total order; callbacks satisfy their contracts",
		"operation results depend on keys only through comparisons (checked by the comparator interface)",
	}
	checks["C02"] = func(r *Run) {
		r.each(220, func(w *Worker, i int) {
			for _, cfg := range []int{0, cfCB, cfCB | cfCache} {
				w.do("bt.ctor", []int64{int64(i), int64(cfg)})
			}
		})
		for _, x := range []int64{-1, -2, -3, 1 << 62, 1<<62 + 1, 1<<32 + 1, 1 << 32} {
			x := x
			r.each(1, func(w *Worker, _ int) { w.do("bt.ctor", []int64{x, 0}) })
		}
		closure(r, 4, 0, pickTier(r, 8, 10), map[int]bool{4: true}, pickTier(r, 60000, 600000))
		closure(r, 4, 0, pickTier(r, 6, 7), map[int]bool{0: true, 2: true, 3: true, 5: true}, pickTier(r, 120000, 600000))
		exploreBT(r, 4, pickTier(r, 13, 16), pickTier(r, 40000, 400000), 2, []string{"bt.content"}, []string{"bt.light"})
		exploreImages(r, imageSpecs(2, 5), []string{"bt.light"}, []bool{false, true})
		exploreImages(r, imageSpecs(3, pickTier(r, 2, 3)), []string{"bt.light"}, pickTier(r, []bool{true}, []bool{false, true}))
		exploreBT(r, 6, pickTier(r, 10, 14), pickTier(r, 20000, 200000), 1, []string{"bt.content"}, []string{"bt.light"})
		btLarge(r, "bt.large", pickTier(r, []int{40, 130}, []int{40, 130, 400, 1000}), []int{4, 6, 8, 10, 16, 32, 64, 100, 1000}, []int{0, cfCB | cfCache | cfFlush})
		huge(r, 3000, 4, 6, 16, 64, 512, 1000, 4096)
		huge(r, pickTier(r, 70000, 200000), 4, 100, 140000)
		r.sample("every operation on every reachable capacity-4 shape, e.g. %s", btHistStr([]int64{4, oPut, 100, 1, oPut, 50, 2, oPut, 60, 2, oDelI, 0, 0}))
	}
	_ = strings.Join
	_ = sm.Key(nil)
}
