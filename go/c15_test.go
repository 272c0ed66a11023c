//go:build go1.21

package zverif

import (
	"fmt"
	"slices"
	"testing"

	"pgregory.net/rapid"
)

// C15: the dataset verifier against an LRU cache fed the listed files only.

func c15Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		a := makeCache(c.Cfg, dir)
		lru := c.Cfg
		lru.Type, lru.Dataset = "lru", nil
		b := makeCache(lru, dir)
		listed := map[int]bool{}
		names := map[int64]bool{}
		for _, i := range c.Cfg.Dataset {
			listed[i] = true
			names[fname(i)] = true
		}
		now := day0
		evicted, others := 0, 0
		for i, op := range c.Ops {
			now += op.D
			if op.K != "" {
				applyOther(a, op)
				applyOther(b, op)
				continue
			}
			at := fmt.Sprintf("op %d (file %d, listed %v)", i, op.F, listed[op.F])
			name, size := fname(op.F), c.Sizes[op.F]
			before := counters(a)
			oa := request(a, name, size, op, now)
			if listed[op.F] {
				ob := request(b, name, size, op, now)
				if oa.Hit != ob.Hit || oa.Added != ob.Added || oa.Deleted != ob.Deleted {
					return failf("%s: hit=%v added=%v evicted=%d, an LRU cache of the listed files gives hit=%v added=%v evicted=%d", at, oa.Hit, oa.Added, oa.Deleted, ob.Hit, ob.Added, ob.Deleted)
				}
				evicted += int(oa.Deleted)
			} else {
				others++
				after := counters(a)
				if oa.Hit || oa.Added || oa.Deleted != 0 {
					return failf("%s: hit=%v added=%v evicted=%d for a file that is not listed", at, oa.Hit, oa.Added, oa.Deleted)
				}
				if after.Req != before.Req+1 || !near(after.OnMiss, before.OnMiss+size) || after.Hits != before.Hits {
					return failf("%s: not processed as a miss: %s then %s", at, before.str(), after.str())
				}
			}
			sa, sb := snapOf(a), snapOf(b)
			if !slices.Equal(sa.order(), sb.order()) {
				return failf("%s: files %v, an LRU cache of the listed files holds %v", at, sa.order(), sb.order())
			}
			for _, n := range sa.names() {
				if !names[n] {
					return failf("%s: holds file %d, which is not listed", at, n)
				}
			}
			if !near(a.Size(), b.Size()) {
				return failf("%s: size %v, LRU %v", at, a.Size(), b.Size())
			}
		}
		if evicted > 0 {
			r.Class("evicted")
		}
		if others > 0 {
			r.Class("not-listed")
		}
		if evicted > 0 && others > 0 {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC15_Dataset(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C15", Name: "Dataset",
		Rule:     "random dataset file, capacity and trace replayed on the verifier and, restricted to listed files, on an LRU cache; non-trivial: evictions and requests of files that are not listed",
		Quick:    1200,
		Thorough: 20000,
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: quietCfg(rt, []string{"lruDatasetVerifier"})}
			if rapid.Bool().Draw(rt, "hasPrune") {
				pruneGen(rt, &c.Cfg)
			}
			c.Sizes = sizesGen(rt, 3, 6, 12, 24)
			datasetGen(rt, &c.Cfg, len(c.Sizes))
			c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 20, "clearStats", "clearFiles", "free"), 1, 6, 25, 60, 120)
			c.largeScale(rt)
			return c
		},
		Run: c15Run,
	})
}
