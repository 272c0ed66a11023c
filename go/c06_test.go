//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// C06: watermarks and explicit releases.

func c06Gen(rt *rapid.T) HistCase {
	types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "lru", "lfu", "weightFunLRU", "lruDatasetVerifier", "aiNN"}
	c := HistCase{Cfg: quietCfg(rt, types)}
	if rapid.IntRange(0, 4).Draw(rt, "hasWM") > 0 {
		wmGen(rt, &c.Cfg)
	}
	c.Sizes = sizesGen(rt, 3, 6, 10, 16, 30)
	completeCfg(rt, &c.Cfg, len(c.Sizes), true)
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 7, "free", "freep"), 1, 6, 25, 60, 120)
	if c.Cfg.Type != "weightFunLRU" {
		c.largeScale(rt)
	}
	return c
}

func c06Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		m := newModel(c.Cfg)
		now := day0
		triggered, freed := 0, 0
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d (%s)", i, op.K)
			if op.K != "" {
				del := inst.NumDeleted()
				got := applyOther(inst, op)
				victims := m.free(op.A, op.K == "freep", inst.NumDeleted()-del)
				var want float64
				for _, f := range victims {
					want += f.size
				}
				if n := inst.NumDeleted() - del; n != int64(len(victims)) {
					return failf("%s of %v: %d files evicted, the shortest run has %d", at, op.A, n, len(victims))
				}
				if !near(got, want) {
					return failf("%s of %v: released %v, the evicted files have size %v", at, op.A, got, want)
				}
				if len(victims) > 0 {
					freed++
				}
			} else {
				name, size := fname(op.F), c.Sizes[op.F]
				obs := request(inst, name, size, op, now)
				o := m.request(name, size, now, obs)
				if want := int64(len(o.victims) + len(o.wmVictims)); obs.Deleted != want {
					return failf("%s: %d files evicted, expected %d for the file and %d for the watermark (occupancy now %v, before the watermark %v)", at, obs.Deleted, len(o.victims), len(o.wmVictims), inst.Capacity(), obs.PreAfter/c.Cfg.Cap*100)
				}
				if len(o.wmVictims) > 0 {
					triggered++
					if inst.Capacity() > c.Cfg.Low+1e-9 {
						return failf("%s: occupancy %v after a watermark release, low watermark %v", at, inst.Capacity(), c.Cfg.Low)
					}
				}
			}
			if got, want := snapOf(inst).names(), m.heldNames(); !slices.Equal(got, want) {
				return failf("%s: held files %v, expected %v", at, got, want)
			}
		}
		r.Class(c.Cfg.Type)
		if triggered > 0 {
			r.Class("watermark")
		}
		if freed > 0 {
			r.Class("explicit-release")
		}
		if triggered+freed > 0 {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC06_Model(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C06", Name: "Model",
		Rule:     "random deterministic cache with watermarks, requests and explicit releases of amounts and percentages, replayed step by step against a reference model; non-trivial: a watermark or an explicit release evicted something",
		Quick:    1000,
		Thorough: 20000,
		Gen:      c06Gen,
		Run:      c06Run,
	})
}

// snapSpy takes a snapshot when the request is accounted, before watermarks.
type snapSpy struct {
	cache.Cache
	snap  Snap
	taken bool
	asked bool
	fine  bool
}

func (s *snapSpy) CheckWatermark() bool {
	s.fine = s.Cache.CheckWatermark()
	s.asked = true
	return s.fine
}

func (s *snapSpy) AfterRequest(req *cache.Request, st *files.Stats, hit bool, added bool) {
	s.Cache.AfterRequest(req, st, hit, added)
	s.snap, s.taken = snapOf(s.Cache), true
}

func c06ObsRun(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		now := day0
		for i, op := range c.Ops {
			now += op.D
			s := &snapSpy{Cache: inst}
			_, red := cache.GetFile(s, fname(op.F), c.Sizes[op.F], op.P, op.E, now, op.S, op.U, int64(0))
			if red || !s.taken {
				continue
			}
			at := fmt.Sprintf("op %d", i)
			after := snapOf(inst)
			gone := missing(s.snap.Held, after.Held)
			if len(after.Held)+len(gone) != len(s.snap.Held) {
				return failf("%s: files appeared while checking the watermark", at)
			}
			occ := s.snap.size() / c.Cfg.Cap * 100
			if below := !c.Cfg.WM || occ < c.Cfg.High; s.asked && s.fine != below && !(c.Cfg.WM && near(occ, c.Cfg.High)) {
				return failf("%s: the watermark check answers %v at occupancy %v, watermarks %v, high %v", at, s.fine, occ, c.Cfg.WM, c.Cfg.High)
			}
			if !c.Cfg.WM || occ < c.Cfg.High-1e-9 {
				if len(gone) > 0 {
					return failf("%s: %d files evicted at occupancy %v, watermarks %v, high %v", at, len(gone), occ, c.Cfg.WM, c.Cfg.High)
				}
				continue
			}
			if near(occ, c.Cfg.High) && occ != c.Cfg.High && len(gone) == 0 {
				continue
			}
			excess := s.snap.size() - c.Cfg.Low*c.Cfg.Cap/100
			tol := 1e-9 * math.Max(1, c.Cfg.Cap)
			var sum float64
			lo, hi := 0, 0 // admissible numbers of victims
			for k, f := range s.snap.Files {
				if sum < excess-tol {
					lo = k + 1
				}
				if sum < excess+tol {
					hi = k + 1
				}
				sum += f.Size
			}
			if excess <= 0 {
				lo, hi = 0, 0
			}
			if c.Cfg.Type == "random" {
				// unordered: enough files, and none beyond what is needed
				var rel, smallest float64 = 0, math.Inf(1)
				for _, n := range gone {
					rel += s.snap.Held[n].Size
					smallest = math.Min(smallest, s.snap.Held[n].Size)
				}
				if rel < excess-tol && len(after.Held) > 0 {
					return failf("%s: watermark released %v, excess %v", at, rel, excess)
				}
				var largest float64
				for _, n := range gone {
					largest = math.Max(largest, s.snap.Held[n].Size)
				}
				if len(gone) > 0 && rel-largest >= excess+tol {
					return failf("%s: watermark released %v in %d files, more than needed for %v", at, rel, len(gone), excess)
				}
				_ = smallest
			} else {
				if len(gone) < lo || len(gone) > hi {
					return failf("%s: watermark evicted %d files at occupancy %v (high %v low %v), the shortest run has %d", at, len(gone), occ, c.Cfg.High, c.Cfg.Low, lo)
				}
				for k, n := range s.snap.order()[:len(gone)] {
					if _, still := after.Held[n]; still {
						return failf("%s: the %d-th worst file %d survived the watermark, a better one was evicted", at, k, n)
					}
				}
			}
			if len(gone) > 0 {
				r.NonTrivial()
				r.Class(c.Cfg.Type)
			}
		}
		return nil
	})
}

func TestC06_Observed(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C06", Name: "Observed",
		Rule:     "every bounded cache type without an eviction agent, a snapshot taken before and after the watermark check of each request; non-trivial: the watermark evicted something",
		Quick:    500,
		Thorough: 8000,
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: anyCfg(rt, []string{"random", "random_lru", "random_lru", "aiRL", "aiRL", "weightFunLRU", "lru", "lfu", "sizeBig", "sizeSmall"})}
			if rapid.IntRange(0, 6).Draw(rt, "wmAnyway") > 0 {
				wmGen(rt, &c.Cfg)
			}
			c.Sizes = sizesGen(rt, 3, 6, 10, 16)
			completeCfg(rt, &c.Cfg, len(c.Sizes), false)
			if rl := c.Cfg.RL; rl != nil {
				rl.Evict, rl.EvType = nil, ""
				if len(rl.Add) == 0 {
					rl.Add = map[string]FeatObj{"size": {Type: "float", Buckets: []any{2.0, 8.0}, OpenRight: true}}
				}
			}
			c.Ops = sliceOf(rt, "ops", reqGen(len(c.Sizes)), 6, 25, 60)
			return c
		},
		Run: c06ObsRun,
	})
}

type c06Conf struct {
	Type string  `json:"type"`
	High float64 `json:"high"`
	Low  float64 `json:"low"`
}

func TestC06_Config(t *testing.T) {
	runSpec(t, Spec[c06Conf]{
		Prop: "C06", Name: "Config",
		Rule:     "random watermark pairs on every type; the configuration is refused exactly when high < low; non-trivial: refused",
		Quick:    150,
		Thorough: 1000,
		Gen: func(rt *rapid.T) c06Conf {
			g := rapid.SampledFrom([]float64{0, 1, 25, 50, 74.9, 75, 75.1, 94.99, 95, 100})
			return c06Conf{Type: rapid.SampledFrom(append([]string{"infinite"}, boundedTypes...)).Draw(rt, "type"), High: g.Draw(rt, "high"), Low: g.Draw(rt, "low")}
		},
		Run: func(c c06Conf, r *Rec) error {
			dir, clean := scratch()
			defer clean()
			cfg := Cfg{Type: c.Type, Cap: 100, WM: true, High: c.High, Low: c.Low, MaxDiff: 6, Step: 7, WFun: "FuncAdditive", A: 1, B: 1, G: 1}
			if c.Type == "aiRL" {
				cfg.RL = &RLCfg{Type: "SCDL2", AddEps: 1, AddDecay: 0.1, Add: map[string]FeatObj{"size": {Type: "float", Buckets: []any{2.0}, OpenRight: true}}}
			}
			refused := safely(func() error { makeCache(cfg, dir); return nil }) != nil
			if refused != (c.High < c.Low) {
				return failf("%s with high watermark %v and low %v: refused %v", c.Type, c.High, c.Low, refused)
			}
			if refused {
				r.NonTrivial()
			}
			return nil
		},
	})
}
