//go:build go1.21

package zverif

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

// C14: the infinite cache.

func c14Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		defer func() { _ = inst.Terminate() }()
		now := day0
		seen := map[int]bool{}
		var size float64
		start := inst.GetMaxSize()
		hits := 0
		long := false
		for i, op := range c.Ops {
			now += op.D
			long = long || op.D >= 2*86400
			at := fmt.Sprintf("op %d (%s file %d)", i, op.K, op.F)
			if op.K == "clearStats" {
				inst.ClearStats()
				r.Class("reset")
			} else {
				obs := request(inst, fname(op.F), c.Sizes[op.F], op, now)
				if obs.Hit != seen[op.F] {
					return failf("%s: hit %v, requested before %v", at, obs.Hit, seen[op.F])
				}
				if obs.Added == obs.Hit || obs.Redirected {
					return failf("%s: hit=%v added=%v redirected=%v", at, obs.Hit, obs.Added, obs.Redirected)
				}
				if obs.Hit {
					hits++
				} else {
					size += c.Sizes[op.F]
				}
				seen[op.F] = true
			}
			if inst.NumDeleted() != 0 || inst.DataDeleted() != 0 {
				return failf("%s: %d files deleted", at, inst.NumDeleted())
			}
			if !near(inst.Size(), size) {
				return failf("%s: occupied size %v, the distinct files requested have %v", at, inst.Size(), size)
			}
			if !near(inst.GetMaxSize(), start+size) || inst.GetMaxSize() < inst.Size() {
				return failf("%s: maximum size %v, started at %v with occupied size %v", at, inst.GetMaxSize(), start, size)
			}
		}
		for f := range c.Sizes {
			if inst.Check(fname(f)) != seen[f] {
				return failf("end: file %d held %v, requested %v", f, !seen[f], seen[f])
			}
		}
		if hits > 0 {
			r.Class("hit")
		}
		if long {
			r.Class("days-apart")
		}
		if hits > 0 && size > start {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC14_Infinite(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C14", Name: "Infinite",
		Rule:     "random traces with gaps up to weeks, pruning settings, initial sizes and statistics resets on an infinite cache; non-trivial: a hit and more data than the initial size",
		Quick:    2500,
		Thorough: 40000,
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: quietCfg(rt, []string{"infinite"})}
			pruneGen(rt, &c.Cfg)
			c.Cfg.Log = rapid.IntRange(0, 9).Draw(rt, "log") == 0
			c.Sizes = sizesGen(rt, 3, 6, 16, 40)
			c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 15, "clearStats"), 1, 6, 25, 60, 150)
			return c
		},
		Run: c14Run,
	})
}
