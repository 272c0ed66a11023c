//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"pgregory.net/rapid"
)

// C07: redirection of misses at 95 percent of the bandwidth.

func c07Gen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: quietCfg(rt, append([]string{"infinite"}, boundedTypes...))}
	if rapid.Bool().Draw(rt, "hasWM") && c.Cfg.Type != "infinite" {
		wmGen(rt, &c.Cfg)
	}
	pruneGen(rt, &c.Cfg)
	bwGen(rt, &c.Cfg)
	c.Cfg.Redirect = rapid.IntRange(0, 6).Draw(rt, "redirect") > 0
	c.Sizes = sizesGen(rt, 3, 6, 10, 16)
	if rapid.Bool().Draw(rt, "whole") {
		for i := range c.Sizes {
			c.Sizes[i] = float64(rapid.IntRange(1, 10).Draw(rt, "wholeSize"))
		}
	}
	completeCfg(rt, &c.Cfg, len(c.Sizes), false)
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 12, "clearStats"), 1, 6, 25, 60)
	return c
}

func c07Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		defer func() { _ = inst.Terminate() }()
		now := day0
		var onMiss, redirSize float64
		infinite := c.Cfg.Type == "infinite"
		daily := c.Cfg.BW * 1000 / 8 * 86400
		if !near(inst.Bandwidth(), daily) {
			return failf("daily bandwidth %v MB, want %v", inst.Bandwidth(), daily)
		}
		redirected, hitsWhileSaturated := 0, 0
		for i, op := range c.Ops {
			now += op.D
			if op.K == "clearStats" {
				inst.ClearStats()
				onMiss, redirSize = 0, 0
				r.Class("reset")
				continue
			}
			name, size := fname(op.F), c.Sizes[op.F]
			usage := onMiss / inst.Bandwidth() * 100
			at := fmt.Sprintf("op %d (file %d size %v, %v MB of %v read on miss)", i, op.F, size, onMiss, inst.Bandwidth())
			if !near(inst.BandwidthUsage(), usage) {
				return failf("%s: bandwidth usage %v, want %v", at, inst.BandwidthUsage(), usage)
			}
			cb := counters(inst)
			before := snapOf(inst)
			_, was := before.Held[name]
			obs := request(inst, name, size, op, now)
			ca := counters(inst)
			expect := !was && c.Cfg.Redirect && usage >= 95
			if usage == 95 {
				r.Class("exactly-95")
			}
			if math.Abs(usage-95) < 1e-9 && usage != 95 && !was && c.Cfg.Redirect {
				expect = obs.Redirected
			}
			if obs.Redirected != expect {
				return failf("%s: redirected %v at usage %v, held %v", at, obs.Redirected, usage, was)
			}
			if was && usage >= 95 {
				hitsWhileSaturated++
			}
			if !obs.Redirected {
				if ca.Redirected != cb.Redirected || ca.RedirSize != cb.RedirSize {
					return failf("%s: counted as redirected although it was not", at)
				}
				if !was {
					onMiss += size
				}
				continue
			}
			redirected++
			cb.Redirected++
			cb.RedirSize += size
			redirSize += size
			if !near(ca.RedirSize, redirSize) {
				return failf("%s: %v MB redirected since the last reset, reported %v", at, redirSize, ca.RedirSize)
			}
			if ca.str() != cb.str() {
				return failf("%s: a redirected request changed the figures from %s to %s", at, cb.str(), ca.str())
			}
			after := snapOf(inst)
			if infinite {
				continue
			}
			if !reflect.DeepEqual(before.Files, after.Files) && c.Cfg.Type != "random" && !agentQueue(c.Cfg) {
				return failf("%s: a redirected request changed the files", at)
			}
			if !reflect.DeepEqual(before.Held, after.Held) || !reflect.DeepEqual(before.Stats, after.Stats) {
				return failf("%s: a redirected request changed the files or statistics", at)
			}
		}
		r.Class(c.Cfg.Type)
		if redirected > 0 {
			r.NonTrivial()
			r.Class("redirected")
		}
		if hitsWhileSaturated > 0 {
			r.Class("hit-while-saturated")
		}
		return nil
	})
}

func TestC07_Redirect(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C07", Name: "Redirect",
		Rule:     "random cache type with a daily bandwidth of a few MB, trace and statistics resets; the decision recomputed for each request, everything observable compared around redirected ones; non-trivial: at least one request was redirected",
		Quick:    1500,
		Thorough: 20000,
		Gen:      c07Gen,
		Run:      c07Run,
	})
}
