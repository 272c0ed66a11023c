//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// C04: counters against the observed decisions.

func c04Gen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: anyCfg(rt, append([]string{"infinite"}, boundedTypes...))}
	c.Sizes = sizesGen(rt, 3, 6, 12, 20)
	completeCfg(rt, &c.Cfg, len(c.Sizes), false)
	if c.Cfg.Type == "infinite" {
		c.Cfg.WM, c.Cfg.Redirect = false, false
	}
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 12, "clearStats"), 1, 6, 25, 60, 120)
	if rapid.IntRange(0, 11).Draw(rt, "huge") == 0 {
		// far more room than files, as the caches of a region have
		c.Cfg.Cap *= 1 << 20
		c.Cfg.BW *= 1 << 20
	}
	return c
}

func c04Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		defer func() { _ = inst.Terminate() }()
		infinite := c.Cfg.Type == "infinite"
		agentEvicts := c.Cfg.RL != nil && len(c.Cfg.RL.Evict) > 0
		held := func() map[int64]files.Stats {
			if infinite {
				return nil
			}
			return snapOf(inst).Held
		}
		now := day0
		var req, hits, misses, added, deleted, redirected int64
		var written, read, onHit, onMiss, delData, redirSize float64
		var free []float64
		sizeAtReset := 0.0
		resets, evictions := 0, 0
		seen := map[int]bool{}
		check := func(at string) error {
			g := counters(inst)
			ints := []struct {
				name      string
				got, want int64
			}{{"requests", g.Req, req}, {"hits", g.Hits, hits}, {"added files", g.Added, added}, {"deleted files", g.Deleted, deleted}, {"redirected requests", g.Redirected, redirected}}
			for _, v := range ints {
				if v.got != v.want {
					return failf("%s: %d %s counted, observed %d", at, v.got, v.name, v.want)
				}
			}
			rate := 0.0
			if hits+misses > 0 {
				rate = float64(hits) / float64(hits+misses) * 100
			}
			fl := []struct {
				name      string
				got, want float64
			}{{"data written", g.Written, written}, {"data read", g.Read, read}, {"data read on hit", g.OnHit, onHit}, {"data read on miss", g.OnMiss, onMiss},
				{"data deleted", g.DelData, delData}, {"redirected volume", g.RedirSize, redirSize}, {"hit rate", g.HitRate, rate},
				{"weighted hit rate", g.WHR, rate * onHit}, {"data read on hit and miss", g.OnHit + g.OnMiss, g.Read},
				{"occupied size", g.Size - sizeAtReset, g.Written - g.DelData}}
			for _, v := range fl {
				if !near(v.got, v.want) {
					return failf("%s: %s %v, expected %v", at, v.name, v.got, v.want)
				}
			}
			if len(free) > 0 && !(agentEvicts && c.Cfg.RL.EvType == "onK") {
				var sum, sq float64
				for _, v := range free {
					sum += v
				}
				mean := sum / float64(len(free))
				for _, v := range free {
					sq += (v - mean) * (v - mean)
				}
				if math.Abs(g.AvgFree-mean) > 1e-7*math.Max(1, math.Abs(mean)) {
					return failf("%s: average free space %v, the %d values seen average %v", at, g.AvgFree, len(free), mean)
				}
				if len(free) > 1 {
					if sd := math.Sqrt(sq / float64(len(free)-1)); math.Abs(g.StdF-sd) > 1e-9*math.Abs(mean)+1e-6*math.Max(1e-3, sd) {
						return failf("%s: standard deviation of free space %v, the %d values seen give %v", at, g.StdF, len(free), sd)
					}
				}
			}
			return nil
		}
		if err := check("start"); err != nil {
			return err
		}
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d (%s)", i, op.K)
			if op.K == "clearStats" {
				before := held()
				inst.ClearStats()
				resets++
				req, hits, misses, added, deleted, redirected = 0, 0, 0, 0, 0, 0
				written, read, onHit, onMiss, delData, redirSize = 0, 0, 0, 0, 0, 0
				free = nil
				after := held()
				if agentEvicts && c.Cfg.RL.EvType == "onDayEnd" {
					gone := missing(before, after)
					for _, n := range gone {
						deleted++
						delData += before[n].Size
					}
					sizeAtReset = inst.Size() + delData
				} else {
					sizeAtReset = inst.Size()
					if len(before) != len(after) || len(missing(before, after)) > 0 {
						return failf("%s: resetting the statistics changed the files held", at)
					}
				}
				if err := check(at); err != nil {
					return err
				}
				continue
			}
			name, size := fname(op.F), c.Sizes[op.F]
			before := held()
			s := &spy{Cache: inst}
			was := false
			if infinite {
				was = seen[op.F]
				seen[op.F] = true
				ok, red := cache.GetFile(s, name, size, op.P, op.E, now, op.S, op.U, int64(0))
				if red {
					return failf("%s: redirected by an infinite cache", at)
				}
				if ok {
					added++
					written += size
				}
			} else {
				_, was = before[name]
				ok, red := cache.GetFile(s, name, size, op.P, op.E, now, op.S, op.U, int64(0))
				if red {
					redirected++
					redirSize += size
					r.Class("redirected")
					if err := check(at); err != nil {
						return err
					}
					continue
				}
				if ok {
					added++
					written += size
				}
				after := held()
				gone := missing(before, after)
				if ok && !was {
					if _, is := after[name]; !is {
						gone = append(gone, name)
					}
				}
				for _, n := range gone {
					deleted++
					if n == name {
						delData += size
					} else {
						delData += before[n].Size
					}
				}
				if len(gone) > 0 {
					evictions++
				}
			}
			req++
			read += size
			if was {
				hits++
				onHit += size
			} else {
				misses++
				onMiss += size
			}
			if !s.accounted {
				return failf("%s: the request was not accounted", at)
			}
			free = append(free, s.preMax-s.pre)
			if err := check(at); err != nil {
				return err
			}
		}
		r.Class(c.Cfg.Type)
		if resets > 0 {
			r.Class("reset")
		}
		if len(free) > 1 {
			r.Class("free-space")
		}
		if len(c.Ops) > 3 && (evictions > 0 || infinite) {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC04_Counters(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C04", Name: "Counters",
		Rule:     "random cache type, settings, trace and placement of statistics resets; every counter compared after each step with what the requests were seen to do (membership in dumps before and after); non-trivial: at least four steps and one eviction (or an infinite cache)",
		Quick:    900,
		Thorough: 16000,
		Gen:      c04Gen,
		Run:      c04Run,
	})
}

// Resetting the statistics changes no decision of a cache without learning.
func c04TwinRun(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		a, b := makeCache(c.Cfg, dir), makeCache(c.Cfg, dir)
		now := day0
		evicted := false
		for i, op := range c.Ops {
			now += op.D
			if op.K == "clearStats" {
				a.ClearStats()
				r.Class("reset")
				continue
			}
			oa := request(a, fname(op.F), c.Sizes[op.F], op, now)
			ob := request(b, fname(op.F), c.Sizes[op.F], op, now)
			if oa.Hit != ob.Hit || oa.Added != ob.Added || oa.Deleted != ob.Deleted || oa.Redirected != ob.Redirected {
				return failf("op %d: with a statistics reset before, the request gives hit=%v added=%v deleted=%d redirected=%v; without it hit=%v added=%v deleted=%d redirected=%v", i, oa.Hit, oa.Added, oa.Deleted, oa.Redirected, ob.Hit, ob.Added, ob.Deleted, ob.Redirected)
			}
			evicted = evicted || oa.Deleted > 0
		}
		if x, y := snapOf(a).names(), snapOf(b).names(); !slices.Equal(x, y) {
			return failf("end: files %v with statistics resets, %v without", x, y)
		}
		r.Class(c.Cfg.Type)
		if evicted && r.Is("reset") {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC04_ResetIsNeutral(t *testing.T) {
	types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "weightFunLRU", "lruDatasetVerifier", "aiNN", "random_lru"}
	runSpec(t, Spec[HistCase]{
		Prop: "C04", Name: "ResetIsNeutral",
		Rule:     "the same trace on two caches, one of which has its statistics reset at random points; non-trivial: at least one reset and one eviction",
		Quick:    1000,
		Thorough: 15000,
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: anyCfg(rt, types)}
			c.Cfg.Redirect = false
			c.Sizes = sizesGen(rt, 3, 6, 12, 20)
			completeCfg(rt, &c.Cfg, len(c.Sizes), true)
			c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 7, "clearStats"), 6, 25, 60, 120)
			return c
		},
		Run: c04TwinRun,
	})
}
