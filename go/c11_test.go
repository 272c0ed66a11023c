//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// C11: weights and admission of the weighted cache.

func c11Gen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: quietCfg(rt, []string{"weightFunLRU"})}
	if rapid.Bool().Draw(rt, "hasPrune") {
		pruneGen(rt, &c.Cfg)
	}
	c.Sizes = sizesGen(rt, 2, 4, 8, 14)
	weightGen(rt, &c.Cfg, rapid.Bool().Draw(rt, "exact"))
	c.Ops = sliceOf(rt, "ops", reqGen(len(c.Sizes)), 1, 6, 25, 60, 120)
	return c
}

func c11Run(c HistCase, r *Rec) error {
	inst := makeCache(c.Cfg, "")
	m := newModel(c.Cfg)
	now := day0
	refused, admitted, victims, settled := 0, 0, 0, 0
	for i, op := range c.Ops {
		now += op.D
		name, size := fname(op.F), c.Sizes[op.F]
		obs := request(inst, name, size, op, now)
		o := m.request(name, size, now, obs)
		at := fmt.Sprintf("op %d (file %d size %v)", i, op.F, size)
		snap := snapOf(inst)
		f := m.stats[name]
		if f != nil {
			g, in := snap.Stats[name]
			if !in {
				return failf("%s: no statistics", at)
			}
			if math.Abs(g.Weight-f.weight) > 1e-9*math.Max(1, math.Abs(f.weight)) {
				return failf("%s: weight %v, %s of %d requests, size %v and age %v is %v", at, g.Weight, c.Cfg.WFun, f.freq, f.size, f.age, f.weight)
			}
			if !near(g.RequestedTimesMean, f.age) {
				return failf("%s: mean age %v, want %v", at, g.RequestedTimesMean, f.age)
			}
		}
		if obs.Hit != o.hit || obs.Added != o.added || obs.Deleted != int64(len(o.victims)) {
			return failf("%s: hit=%v added=%v evicted=%d, expected hit=%v added=%v evicted=%d (weight %v, mean weight %v)", at, obs.Hit, obs.Added, obs.Deleted, o.hit, o.added, len(o.victims), f.weight, m.meanWeight())
		}
		if got, want := snap.names(), m.heldNames(); !slices.Equal(got, want) {
			return failf("%s: held files %v, expected %v", at, got, want)
		}
		if o.ambiguous {
			settled++
		}
		if len(m.stats) > 0 {
			parts := strings.Split(inst.ExtraStats(), "wAVG:")
			if got, err := strconv.ParseFloat(parts[len(parts)-1], 64); err == nil && len(parts) == 2 {
				if mean := m.meanWeight(); math.Abs(got-mean) > 0.0051+1e-9*math.Max(math.Abs(mean), m.maxWeight) {
					return failf("%s: reported mean weight %v, want %v", at, got, mean)
				}
			}
		}
		if o.refusedByWeight {
			refused++
		}
		if o.added {
			admitted++
		}
		victims += len(o.victims)
		if o.purged {
			r.Class("pruned")
		}
	}
	r.Class(c.Cfg.WFun)
	if settled > 0 {
		r.Class("settled-by-observation")
	}
	if refused > 0 {
		r.Class("refused")
	}
	if victims > 0 {
		r.Class("evicted")
	}
	if refused > 0 && admitted > 1 {
		r.NonTrivial()
	}
	return nil
}

func TestC11_Weights(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C11", Name: "Weights",
		Rule:     "random weight function, parameters, pruning and trace; weights, mean ages, admissions and victims compared with a model after each request (comparisons of a weight with the mean that rounding could flip are settled by observation and counted); non-trivial: a file was refused for its weight and two were admitted",
		Quick:    1600,
		Thorough: 35000,
		Gen:      c11Gen,
		Run:      c11Run,
	})
}
