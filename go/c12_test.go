//go:build go1.21

package zverif

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// C12: misses after delete.

func c12Gen(rt *rapid.T) HistCase {
	types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "lru", "weightFunLRU", "lruDatasetVerifier", "aiNN"}
	c := HistCase{Cfg: quietCfg(rt, types)}
	if rapid.IntRange(0, 2).Draw(rt, "hasWM") == 0 {
		c.Cfg.WM = true
		p := rapid.SampledFrom([][2]float64{{95, 75}, {90, 50}, {75, 60}, {60, 10}, {100, 10}}).Draw(rt, "wm")
		c.Cfg.High, c.Cfg.Low = p[0], p[1]
	}
	c.Sizes = sizesGen(rt, 3, 6, 10, 16)
	completeCfg(rt, &c.Cfg, len(c.Sizes), true)
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 5, "report", "report", "report", "clearStats", "free", "freep"), 6, 25, 60, 120)
	return c
}

func c12Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		m := newModel(c.Cfg)
		now := day0
		reported := 0
		report := func(at string) error {
			got, want := cache.GetTotDeletedFileMiss(inst), m.report()
			if got != want {
				return failf("%s: %d misses after delete reported, want %d", at, got, want)
			}
			if want > 0 {
				reported++
			}
			return nil
		}
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d (%s)", i, op.K)
			switch op.K {
			case "report":
				if err := report(at); err != nil {
					return err
				}
			case "clearStats":
				inst.ClearStats()
				m.clearStats()
			case "free", "freep":
				del := inst.NumDeleted()
				applyOther(inst, op)
				m.free(op.A, op.K == "freep", inst.NumDeleted()-del)
				r.Class("explicit-release")
			default:
				obs := request(inst, fname(op.F), c.Sizes[op.F], op, now)
				o := m.request(fname(op.F), c.Sizes[op.F], now, obs)
				if obs.Added != o.added || obs.Hit != o.hit || obs.Deleted != int64(len(o.victims)+len(o.wmVictims)) {
					// decided by the policy properties, not here: the history is of no use
					r.Class("left-the-model")
					return nil
				}
			}
		}
		if err := report("end"); err != nil {
			return err
		}
		if err := report("second report at the end"); err != nil {
			return err
		}
		r.Class(c.Cfg.Type)
		if reported > 0 {
			r.NonTrivial()
		}
		if reported > 1 {
			r.Class("several-reports")
		}
		return nil
	})
}

func TestC12_MissAfterDelete(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C12", Name: "MissAfterDelete",
		Rule:     "random deterministic cache with evictions, watermark and explicit releases, statistics resets and reports at random points against a model of the watched files; non-trivial: a report was above zero",
		Quick:    2500,
		Thorough: 35000,
		Gen:      c12Gen,
		Run:      c12Run,
	})
}

// watched12 is the model of the watched files of a learning cache: which files
// went is observed, and when two calls of the eviction agent share a request
// only that the files of the last one are watched, so the figure has bounds.
type watched12 struct {
	lo, hi   int
	files    map[int64]bool
	sure     bool
	releases int
}

func (w *watched12) release(gone []int64, calls int64) {
	w.files, w.sure = map[int64]bool{}, calls < 2
	for _, f := range gone {
		w.files[f] = true
	}
	w.releases++
}

func gone12(before, after map[int64]files.Stats) (res []int64) {
	for f := range before {
		if _, there := after[f]; !there {
			res = append(res, f)
		}
	}
	return res
}

func c12LearningRun(c HistCase, r *Rec) error {
	rl := c.Cfg.RL
	evicts := rl.Evict != nil
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		w := &watched12{sure: true}
		now, reported := day0, 0
		report := func(at string) error {
			got := cache.GetTotDeletedFileMiss(inst)
			if got < w.lo || got > w.hi {
				want := fmt.Sprint(w.lo)
				if w.hi > w.lo {
					want += fmt.Sprintf(" to %d", w.hi)
				}
				return failf("%s: %d misses after delete reported, want %s", at, got, want)
			}
			if w.lo > 0 {
				reported++
			}
			if w.hi > w.lo {
				r.Class("bounded-only")
			}
			w.lo, w.hi = 0, 0
			return nil
		}
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d (%s)", i, op.K)
			switch op.K {
			case "report":
				if err := report(at); err != nil {
					return err
				}
			case "clearStats":
				before := snapOf(inst).Held
				inst.ClearStats()
				if evicts && rl.EvType == "onDayEnd" {
					w.release(gone12(before, snapOf(inst).Held), 1)
					r.Class("day-end")
				}
			default:
				name, size := fname(op.F), c.Sizes[op.F]
				spy := &spy40{Cache: inst, what: "h"}
				held := snapOf(inst).Held
				if _, there := held[name]; !there && w.files[name] {
					w.hi++
					if w.sure {
						w.lo++
					}
				}
				full := inst.Size()+size > c.Cfg.Cap
				cache.GetFile(spy, name, size, op.P, op.E, now, op.S, op.U, int64(0))
				if !spy.called || spy.err != nil {
					r.Class("not-judged")
					return nil
				}
				after, err := momentOf(inst, "h")
				if err != nil {
					return nil
				}
				_, hit := held[name]
				if evicts {
					if n := spy.end.calls - spy.begun.calls; n > 0 {
						w.release(gone12(held, spy.end.held), n)
						r.Class("no-room")
					}
					if n := after.calls - spy.end.calls; n > 0 {
						w.release(gone12(spy.end.held, after.held), n)
						r.Class("countdown")
					}
				} else if !hit && full && (rl.Add == nil || spy.end.store > spy.begun.store) {
					w.release(gone12(held, after.held), 1)
					r.Class("no-agent")
				}
			}
		}
		if err := report("end"); err != nil {
			return err
		}
		if err := report("second report at the end"); err != nil {
			return err
		}
		if reported > 0 {
			r.NonTrivial()
		}
		if reported > 1 {
			r.Class("several-reports")
		}
		return nil
	})
}

func TestC12_LearningCache(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C12", Name: "LearningCache",
		Rule:     "random learning cache whose agent releases space when there is no room, at the countdown or at the end of the day (or which frees it by last use), with reports at random points; the files gone at each release are observed and a model of the watched ones gives the figure; non-trivial: a report was above zero",
		Quick:    500,
		Thorough: 8000,
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: quietCfg(rt, []string{"aiRL"})}
			c.Sizes = sizesGen(rt, 3, 6, 10, 16)
			completeCfg(rt, &c.Cfg, len(c.Sizes), true)
			if c.Cfg.RL.Evict != nil && rapid.IntRange(0, 2).Draw(rt, "alone") > 0 {
				c.Cfg.RL.Add = nil
			}
			c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 6, "report", "report", "clearStats"), 6, 25, 60, 120)
			return c
		},
		Run: c12LearningRun,
	})
}
