//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"
)

// C05: CPU-efficiency accounting against its definition.

func c05Gen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: anyCfg(rt, append([]string{"infinite"}, boundedTypes...))}
	c.Cfg.Region = rapid.SampledFrom([]string{"it", "us", "", "", "all", "fr"}).Draw(rt, "c05region")
	c.Sizes = sizesGen(rt, 3, 6, 12)
	completeCfg(rt, &c.Cfg, len(c.Sizes), false)
	if c.Cfg.Type == "infinite" {
		c.Cfg.WM, c.Cfg.Redirect = false, false
	}
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 20, "clearStats"), 1, 6, 25, 60)
	free := rapid.Bool().Draw(rt, "anyEff")
	for i := range c.Ops {
		if free && c.Ops[i].K == "" {
			c.Ops[i].E = rapid.Float64Range(0, 100).Draw(rt, "eff")
		}
	}
	return c
}

func c05Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		defer func() { _ = inst.Terminate() }()
		now := day0
		var hits, misses, local, remote float64
		var hitEff, missEff, up, lo float64
		bound := func() float64 {
			switch c.Cfg.Region {
			case "it":
				return 19
			case "us":
				return 10
			case "":
				if d := up/local - lo/remote; d > 0 && !math.IsNaN(d) {
					return d
				}
			}
			return 0
		}
		var counted [3]int
		for i, op := range c.Ops {
			now += op.D
			if op.K == "clearStats" {
				inst.ClearStats()
				hits, misses, local, remote, hitEff, missEff, up, lo = 0, 0, 0, 0, 0, 0, 0, 0
				r.Class("reset")
				continue
			}
			obs := request(inst, fname(op.F), c.Sizes[op.F], op, now)
			if obs.Redirected {
				continue
			}
			cur := 0.0
			if op.E != 0 {
				switch op.P {
				case 1:
					up += op.E
					local++
					cur = op.E
					counted[1]++
				case 0:
					lo += op.E
					remote++
					cur = op.E + bound()
					counted[0]++
				default:
					counted[2]++
				}
			}
			if obs.Hit {
				hits++
				hitEff += cur
			} else {
				misses++
				if cur != 0 {
					missEff += cur - bound()
				}
			}
			at := fmt.Sprintf("op %d (protocol %d, efficiency %v, hit %v)", i, op.P, op.E, obs.Hit)
			for _, v := range []struct {
				name      string
				got, want float64
			}{
				{"upper bound", inst.CPUEffUpperBound(), up / local}, {"lower bound", inst.CPUEffLowerBound(), lo / remote},
				{"hit efficiency", inst.CPUHitEff(), hitEff / hits}, {"miss efficiency", inst.CPUMissEff(), missEff / misses},
				{"efficiency", inst.CPUEff(), (hitEff + missEff) / (hits + misses)},
			} {
				same := near(v.got, v.want) || math.Abs(v.got-v.want) < 1e-6*math.Max(1, math.Abs(v.want))
				if !same {
					return failf("%s: %s %v, want %v", at, v.name, v.got, v.want)
				}
			}
		}
		r.Class("region-" + c.Cfg.Region)
		r.Class(c.Cfg.Type)
		if counted[0] > 0 && counted[1] > 0 && hits+misses > 3 {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC05_CPUEff(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C05", Name: "CPUEff",
		Rule:     "random cache type, region, trace with local, remote and other protocols, zero and arbitrary efficiencies and statistics resets; every figure recomputed from its definition after each request; non-trivial: local and remote requests with an efficiency and more than three requests",
		Quick:    1500,
		Thorough: 20000,
		Gen:      c05Gen,
		Run:      c05Run,
	})
}
