//go:build go1.21

package zverif

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
)

// C03: occupied size against the files the cache says it holds.

func c03Gen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: anyCfg(rt, boundedTypes)}
	c.Sizes = sizesGen(rt, 3, 6, 12, 20)
	completeCfg(rt, &c.Cfg, len(c.Sizes), false)
	others := []string{"clearStats", "clearFiles"}
	if c.Cfg.RL == nil || len(c.Cfg.RL.Evict) == 0 {
		others = []string{"free", "freep", "clearStats", "clearFiles", "free", "freep"}
	}
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 9, others...), 1, 6, 25, 60, 120)
	c.largeScale(rt)
	return c
}

func c03Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		defer func() { _ = inst.Terminate() }()
		now := day0
		evicted, refused := false, false
		check := func(at string) (Snap, error) {
			s := snapOf(inst)
			if size := inst.Size(); !near(size, s.size()) {
				return s, failf("%s: occupied size %v, the %d files held have size %v", at, size, len(s.Files), s.size())
			} else if size < 0 || size > c.Cfg.Cap {
				return s, failf("%s: occupied size %v outside 0..%v", at, size, c.Cfg.Cap)
			}
			if inst.GetMaxSize() != c.Cfg.Cap {
				return s, failf("%s: capacity %v, configured %v", at, inst.GetMaxSize(), c.Cfg.Cap)
			}
			if want := inst.Size() / c.Cfg.Cap * 100; !near(inst.Capacity(), want) {
				return s, failf("%s: occupancy %v percent, want %v", at, inst.Capacity(), want)
			}
			return s, nil
		}
		if _, err := check("start"); err != nil {
			return err
		}
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d (%s)", i, op.K)
			if op.K != "" {
				applyOther(inst, op)
				r.Class(op.K)
				s, err := check(at)
				if err != nil {
					return err
				}
				if op.K == "clearFiles" && (len(s.Files) != 0 || inst.Size() != 0) {
					return failf("%s: %d files and size %v after clearing the files", at, len(s.Files), inst.Size())
				}
				continue
			}
			name := fname(op.F)
			before := snapOf(inst)
			_, was := before.Held[name]
			obs := request(inst, name, c.Sizes[op.F], op, now)
			s, err := check(at)
			if err != nil {
				return err
			}
			_, is := s.Held[name]
			removed := len(missing(before.Held, s.Held)) > 0
			if obs.Added && !is && !c.Cfg.WM && c.Cfg.RL == nil {
				return failf("%s: file %d admitted but not held", at, name)
			}
			if obs.Added && !is && obs.Deleted == 0 {
				return failf("%s: file %d admitted but not held although nothing was evicted", at, name)
			}
			if !obs.Added && !was && is {
				return failf("%s: file %d refused but held", at, name)
			}
			if obs.Redirected && (obs.Added || is) {
				return failf("%s: file %d redirected but held", at, name)
			}
			if removed {
				evicted = true
			}
			if !obs.Added && !obs.Hit && !obs.Redirected {
				refused = true
			}
			if obs.Redirected {
				r.Class("redirected")
			}
		}
		s := snapOf(inst)
		for f := range c.Sizes {
			_, held := s.Held[fname(f)]
			if inst.Check(fname(f)) != held {
				return failf("end: the cache answers %v for file %d, its dump says %v", !held, fname(f), held)
			}
		}
		r.Class(c.Cfg.Type)
		if c.Cfg.RL != nil && len(c.Cfg.RL.Evict) > 0 {
			r.Class("aiRL-eviction-" + c.Cfg.RL.EvType)
		}
		if refused {
			r.Class("refused")
		}
		if evicted {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC03_Occupancy(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C03", Name: "Occupancy",
		Rule:     "random cache type and settings with requests, explicit releases, statistics resets and file clearing; size, occupancy and membership compared with the dump after every step; non-trivial: at least one file was evicted by a request",
		Quick:    900,
		Thorough: 16000,
		Gen:      c03Gen,
		Run:      c03Run,
	})
}
