//go:build go1.21

package zverif

import (
	"fmt"
	"slices"
	"testing"

	"pgregory.net/rapid"
)

// C02: LRU, LFU, SizeBig and SizeSmall against the reference model.

func c02Gen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: quietCfg(rt, simpleTypes)}
	c.Sizes = sizesGen(rt, 3, 6, 10, 16, 30)
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 25, "clearStats"), 1, 6, 25, 60, 150)
	c.largeScale(rt)
	return c
}

func c02Run(c HistCase, r *Rec) error {
	inst := makeCache(c.Cfg, "")
	m := newModel(c.Cfg)
	now := day0
	evictions, multi, hits := 0, 0, 0
	for i, op := range c.Ops {
		now += op.D
		if op.K == "clearStats" {
			inst.ClearStats()
			m.clearStats()
			continue
		}
		name, size := fname(op.F), c.Sizes[op.F]
		obs := request(inst, name, size, op, now)
		o := m.request(name, size, now, obs)
		at := fmt.Sprintf("op %d (file %d size %v)", i, op.F, size)
		if obs.Hit != o.hit {
			return failf("%s: hit %v, the %s model says %v", at, obs.Hit, c.Cfg.Type, o.hit)
		}
		if obs.Added != o.added {
			return failf("%s: added %v, the %s model says %v", at, obs.Added, c.Cfg.Type, o.added)
		}
		if obs.Deleted != int64(len(o.victims)) {
			return failf("%s: %d files evicted, the %s model evicts %d", at, obs.Deleted, c.Cfg.Type, len(o.victims))
		}
		if obs.Redirected {
			return failf("%s: redirected although redirection is off", at)
		}
		if obs.Hit {
			hits++
		}
		if len(o.victims) > 0 {
			evictions++
			if len(o.victims) > 1 {
				multi++
			}
		}
		if (len(o.victims) > 0 && (len(c.Ops) < 300 || i%4 == 0)) || i%8 == 0 || i == len(c.Ops)-1 {
			if got, want := snapOf(inst).names(), m.heldNames(); !slices.Equal(got, want) {
				return failf("%s: held files %v, the %s model holds %v", at, got, c.Cfg.Type, want)
			}
		}
	}
	r.Class(c.Cfg.Type)
	if multi > 0 {
		r.Class("several-victims")
	}
	if evictions > 0 && hits > 0 {
		r.NonTrivial()
	}
	return nil
}

func TestC02_Policies(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C02", Name: "Policies",
		Rule:     "random policy, capacity, file sizes and request trace replayed request by request against a reference model; non-trivial: the trace has at least one hit and one eviction",
		Quick:    2500,
		Thorough: 40000,
		Gen:      c02Gen,
		Run:      c02Run,
	})
}

// --- every cache kept by recency

func c02RecencyGen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: anyCfg(rt, []string{"lru", "weightFunLRU", "random_lru", "aiNN", "lruDatasetVerifier", "aiRL", "aiRL"})}
	c.Sizes = sizesGen(rt, 3, 6, 10, 16, 30)
	completeCfg(rt, &c.Cfg, len(c.Sizes), false)
	if rl := c.Cfg.RL; rl != nil && len(rl.Evict) > 0 {
		// without an eviction agent the files are kept by recency
		rl.Evict, rl.EvType = nil, ""
		rl.Type = "SCDL2"
	}
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 20, "clearStats", "free", "freep", "clearFiles", "clear"), 1, 6, 25, 60, 150)
	c.largeScale(rt)
	return c
}

func c02RecencyRun(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		defer func() { _ = inst.Terminate() }()
		now := day0
		recent := []int64{} // the files held, the longest unused first
		held := map[int64]bool{}
		sizes := map[int64]float64{}
		for i, s := range c.Sizes {
			sizes[fname(i)] = s
		}
		evictions, hits := 0, 0
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d %+v", i, op)
			asked, released := 0.0, op.K == "free" || op.K == "freep"
			if op.K != "" {
				applyOther(inst, op)
			} else {
				name := fname(op.F)
				obs := request(inst, name, c.Sizes[op.F], op, now)
				asked = c.Sizes[op.F]
				if obs.Hit != held[name] && !obs.Redirected {
					return failf("%s: hit %v, file held %v", at, obs.Hit, held[name])
				}
				if obs.Hit && !obs.Redirected {
					hits++
					recent = slices.DeleteFunc(recent, func(n int64) bool { return n == name })
				}
				if (obs.Hit && !obs.Redirected) || obs.Added {
					recent = append(recent, name)
				}
			}
			snap := snapOf(inst)
			gone := 0
			for gone < len(recent) {
				if _, in := snap.Held[recent[gone]]; in {
					break
				}
				gone++
			}
			if want, got := recent[gone:], snap.order(); !slices.Equal(want, got) {
				return failf("%s: holds %v from the one to evict first, should be %v (files by recency before: %v)", at, got, want, recent)
			}
			if gone > 0 && op.K == "" && !c.Cfg.WM {
				sum := 0.0
				for _, n := range recent[:gone-1] {
					sum += sizes[n]
				}
				if sum >= asked {
					return failf("%s: %d files evicted for a file of %v, the first %d have %v", at, gone, asked, gone-1, sum)
				}
			}
			if gone > 0 && (op.K == "" || released) {
				evictions++
			}
			recent = slices.Clone(recent[gone:])
			held = map[int64]bool{}
			for _, n := range recent {
				held[n] = true
			}
		}
		r.Class(c.Cfg.Type)
		if c.Cfg.RL != nil && len(c.Cfg.RL.Add) == 0 {
			r.Class("no-agent")
		}
		if evictions > 0 && hits > 0 {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC02_Recency(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C02", Name: "Recency",
		Rule:     "random histories (requests, releases, resets, watermarks, saturation) of every cache kept by recency, whatever decides its admissions; the files held are compared after each step, in eviction order, with the files by last use; non-trivial: a hit and an eviction",
		Quick:    1500,
		Thorough: 24000,
		Gen:      c02RecencyGen,
		Run:      c02RecencyRun,
	})
}
