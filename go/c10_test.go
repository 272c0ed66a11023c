//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache/files"
)

// C10: per-file statistics and their pruning, for any cache type.

type c10Stat struct {
	freq, hits, miss int64
	size             float64
	insert, last     int64
	recency, delta   int64
	deltaKnown       bool
	times            []int64
}

func c10Gen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: quietCfg(rt, boundedTypes)}
	pruneGen(rt, &c.Cfg)
	if rapid.IntRange(0, 4).Draw(rt, "hasBW") == 0 {
		bwGen(rt, &c.Cfg)
	}
	c.Sizes = sizesGen(rt, 2, 4, 8, 14)
	completeCfg(rt, &c.Cfg, len(c.Sizes), false)
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 25, "clearStats", "clearStats", "clearFiles"), 1, 6, 25, 60, 120)
	if rapid.IntRange(0, 3).Draw(rt, "calm") == 0 {
		// many requests of few files, more than are remembered
		for i := range c.Ops {
			c.Ops[i].D = c.Ops[i].D % 7200
		}
	}
	return c
}

func c10Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		now := day0
		stats := map[int64]*c10Stat{}
		tick := int64(0)
		first, firstSet := int64(0), false
		purged, long := 0, false
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d (%s)", i, op.K)
			if op.K != "" {
				applyOther(inst, op)
				if op.K == "clearFiles" {
					for _, s := range stats {
						s.recency = -1
					}
				}
			} else {
				name, size := fname(op.F), c.Sizes[op.F]
				obs := request(inst, name, size, op, now)
				if !obs.Redirected {
					if !firstSet {
						first, firstSet = now, true
					}
					s := stats[name]
					if s == nil {
						s = &c10Stat{insert: now, delta: math.MaxInt64, deltaKnown: true}
						stats[name] = s
					} else {
						s.delta, s.deltaKnown = tick-s.recency, s.recency >= 0
					}
					s.recency = tick
					s.freq++
					if obs.Hit {
						s.hits++
					} else {
						s.miss++
					}
					s.size, s.last = size, now
					s.times = append(s.times, now)
					if len(s.times) > 32 {
						s.times = s.times[1:]
						long = true
					}
					tick++
					if float64(now-first)/86400 >= c.Cfg.Step {
						held := snapOf(inst).Held
						for n, s := range stats {
							if _, in := held[n]; !in && float64(now-s.last)/86400 >= c.Cfg.MaxDiff {
								delete(stats, n)
								purged++
							}
						}
						first = now
					}
				}
			}
			snap := snapOf(inst)
			if err := c10Compare(at, snap.Stats, stats); err != nil {
				return err
			}
			for n, h := range snap.Held {
				if err := c10One(at+" (held file)", h, stats[n]); err != nil {
					return err
				}
			}
		}
		r.Class(c.Cfg.Type)
		if purged > 0 {
			r.Class("pruned")
		}
		if long {
			r.Class("more-than-32-requests")
		}
		if purged > 0 || long {
			r.NonTrivial()
		}
		return nil
	})
}

func c10Compare(at string, got map[int64]files.Stats, want map[int64]*c10Stat) error {
	for n := range got {
		if want[n] == nil {
			return failf("%s: file %d has statistics but should have been dropped", at, n)
		}
	}
	for n, w := range want {
		g, in := got[n]
		if !in {
			return failf("%s: the statistics of file %d are gone", at, n)
		}
		if err := c10One(at, g, w); err != nil {
			return err
		}
	}
	return nil
}

func c10One(at string, g files.Stats, w *c10Stat) error {
	if w == nil {
		return failf("%s: file %d has no expected statistics", at, g.Filename)
	}
	bad := func(what string, got, want any) error {
		return failf("%s: file %d: %s %v, want %v", at, g.Filename, what, got, want)
	}
	switch {
	case g.Frequency != w.freq:
		return bad("request count", g.Frequency, w.freq)
	case g.NHits != w.hits:
		return bad("hits", g.NHits, w.hits)
	case g.NMiss != w.miss:
		return bad("misses", g.NMiss, w.miss)
	case g.Size != w.size:
		return bad("size", g.Size, w.size)
	case g.StatInsertTime.Unix() != w.insert:
		return bad("first seen", g.StatInsertTime.Unix(), w.insert)
	case g.StatLastUpdateTime.Unix() != w.last:
		return bad("last request", g.StatLastUpdateTime.Unix(), w.last)
	case w.deltaKnown && g.DeltaLastRequest != w.delta:
		return bad("requests since the previous one", g.DeltaLastRequest, w.delta)
	}
	got := map[int64]int{}
	n := 0
	for _, t := range g.RequestedTimes {
		if !t.IsZero() {
			got[t.Unix()]++
			n++
		}
	}
	if n != len(w.times) {
		return bad("number of remembered times", n, len(w.times))
	}
	for _, t := range w.times {
		got[t]--
	}
	for t, k := range got {
		if k != 0 {
			return failf("%s: file %d: the remembered request times differ at %d", at, g.Filename, t)
		}
	}
	return nil
}

func TestC10_Stats(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C10", Name: "Stats",
		Rule:     "random cache type, pruning settings and trace; all statistics of all files compared with a model after every step; non-trivial: statistics were pruned or a file was requested more than 32 times",
		Quick:    1000,
		Thorough: 16000,
		Gen:      c10Gen,
		Run:      c10Run,
	})
}
