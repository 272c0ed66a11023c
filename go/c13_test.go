//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
)

// C13: equal runs, and fair independent admission.

var extraKeys = []string{"epsilonStats", "valueFunctions", "evictionStats", "evictionCategoryStats", "actionStats"}

const c13RandomKey = "random-victims"

func c13Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		runs := []cache.Cache{makeCache(c.Cfg, dir), makeCache(c.Cfg, dir)}
		now := day0
		evicted, agentActed := 0, false
		unordered := c.Cfg.Type == "random"
		fail := func(format string, args ...any) error {
			err := failf(format, args...)
			if unordered && evicted > 0 {
				return finding{c13RandomKey, err.Error()}
			}
			return err
		}
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d (%s)", i, op.K)
			if op.K == "reload" {
				for k, inst := range runs {
					next := makeCache(c.Cfg, dir)
					if c.Cfg.RL != nil {
						next.Loads(inst.Dumps(true), c.Cfg.RL.AddEps, c.Cfg.RL.AddDecay)
					} else {
						next.Loads(inst.Dumps(true))
					}
					if err := inst.Terminate(); err != nil {
						return err
					}
					runs[k] = next
				}
				r.Class("reload")
			} else if op.K != "" {
				for _, inst := range runs {
					applyOther(inst, op)
				}
			} else {
				del := runs[0].NumDeleted()
				x := request(runs[0], fname(op.F), c.Sizes[op.F], op, now)
				y := request(runs[1], fname(op.F), c.Sizes[op.F], op, now)
				if runs[0].NumDeleted() > del {
					evicted++
				}
				x.Stats, y.Stats = nil, nil
				if x != y {
					return fail("%s: two equal runs decide %+v and %+v", at, x, y)
				}
			}
			if x, y := counters(runs[0]).str(), counters(runs[1]).str(); x != y {
				return fail("%s: two equal runs count %s and %s", at, x, y)
			}
			if x, y := runs[0].ExtraStats(), runs[1].ExtraStats(); x != y {
				return fail("%s: two equal runs report %q and %q", at, x, y)
			}
			for _, k := range extraKeys {
				if x, y := runs[0].ExtraOutput(k), runs[1].ExtraOutput(k); x != y {
					return fail("%s: %s of two equal runs: %q and %q", at, k, x, y)
				}
			}
			a, b := snapOf(runs[0]), snapOf(runs[1])
			if !slices.Equal(a.names(), b.names()) {
				return fail("%s: two equal runs hold %v and %v", at, a.names(), b.names())
			}
			if !unordered && c.Cfg.Type != "infinite" && !agentQueue(c.Cfg) && !slices.Equal(a.order(), b.order()) {
				return fail("%s: two equal runs order their files %v and %v", at, a.order(), b.order())
			}
			if !reflect.DeepEqual(a.Stats, b.Stats) {
				return fail("%s: two equal runs have different statistics", at)
			}
			if c.Cfg.RL != nil && (i%10 == 0 || i == len(c.Ops)-1) {
				va, err := agentValues(a)
				if err != nil {
					return err
				}
				vb, err := agentValues(b)
				if err != nil {
					return err
				}
				if !reflect.DeepEqual(va, vb) {
					return fail("%s: the agents of two equal runs learned different values", at)
				}
				agentActed = true
			}
		}
		for _, inst := range runs {
			if err := inst.Terminate(); err != nil {
				return err
			}
		}
		r.Class(c.Cfg.Type)
		if agentQueue(c.Cfg) {
			r.Class("eviction-agent")
		}
		if evicted > 0 || (agentActed && len(c.Ops) > 10) {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC13_Twin(t *testing.T) {
	// a fixed history on which the victims of the unordered random cache
	// depend on the iteration order of a map
	fixed := HistCase{Cfg: Cfg{Type: "random", Cap: 40, MaxDiff: 6, Step: 100000, BW: 10, Region: "all", Seed: 3}}
	for i := 0; i < 60; i++ {
		fixed.Sizes = append(fixed.Sizes, 2)
	}
	for i := 0; i < 240; i++ {
		fixed.Ops = append(fixed.Ops, Op{F: (i * 7) % 60, D: 60, P: 1, E: 50})
	}
	runSpec(t, Spec[HistCase]{
		Prop: "C13", Name: "Twin",
		Rule:     "two instances with equal configuration and seed fed the same history; every decision, figure, file and learned value compared after each step; non-trivial: at least one eviction, or more than ten steps with agents",
		Quick:    900,
		Thorough: 11000,
		Fixed:    []HistCase{fixed},
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: anyCfg(rt, []string{"random", "random_lru", "random_lru", "aiRL", "aiRL", "aiRL", "aiRL", "weightFunLRU", "lru", "lfu", "sizeBig", "sizeSmall", "lruDatasetVerifier", "aiNN", "infinite"})}
			c.Sizes = sizesGen(rt, 3, 6, 12, 24)
			completeCfg(rt, &c.Cfg, len(c.Sizes), false)
			if c.Cfg.Type == "infinite" {
				c.Cfg.WM, c.Cfg.Redirect = false, false
			}
			c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 12, "clearStats", "clearStats", "clearStats", "reload", "clearFiles", "clear"), 1, 6, 25, 60, 120)
			return c
		},
		Run: c13Run,
	})
}

type c13Adm struct {
	Type  string    `json:"type"`
	Seed  int64     `json:"seed"`
	Seed2 int64     `json:"seed2"`
	N     int       `json:"n"`
	Sizes []float64 `json:"sizes"`
	Perm  int       `json:"perm"`
	Few   int       `json:"few"`
}

func c13AdmRun(c c13Adm, r *Rec) error {
	decide := func(seed int64, name func(int) int64, size func(int) float64, forget bool) []bool {
		inst := makeCache(Cfg{Type: c.Type, Cap: 1e9, MaxDiff: 6, Step: 100000, BW: 10, Region: "all", Seed: seed}, "")
		res := make([]bool, c.N)
		for i := range res {
			res[i] = request(inst, name(i), size(i), Op{P: 1}, day0+int64(i)).Added
			if forget && res[i] {
				// to miss the same file again
				cache.ClearFiles(inst)
			}
		}
		return res
	}
	plain := func(i int) int64 { return int64(i)*17 + 3 }
	size := func(i int) float64 { return c.Sizes[i%len(c.Sizes)] }
	first := decide(c.Seed, plain, size, false)
	admitted := 0
	for _, a := range first {
		if a {
			admitted++
		}
	}
	if dev := math.Abs(float64(admitted) - float64(c.N)/2); dev > 6*math.Sqrt(float64(c.N))/2 {
		return failf("%d of %d missed files admitted", admitted, c.N)
	}
	second := decide(c.Seed, func(i int) int64 { return int64((i*c.Perm)%c.N)*5 - 1000 }, func(i int) float64 { return c.Sizes[(i*3+1)%len(c.Sizes)] }, false)
	if !slices.Equal(first, second) {
		return failf("the decisions depend on the names or sizes of the files")
	}
	few := max(c.Few, 1)
	third := decide(c.Seed, func(i int) int64 { return int64(i % few) }, func(i int) float64 { return c.Sizes[i%few%len(c.Sizes)] }, true)
	if !slices.Equal(first, third) {
		return failf("the decisions depend on the earlier requests of the files")
	}
	if c.Seed != c.Seed2 {
		if slices.Equal(first, decide(c.Seed2, plain, size, false)) {
			return failf("seeds %d and %d give the same %d decisions", c.Seed, c.Seed2, c.N)
		}
		r.NonTrivial()
	}
	r.Class(c.Type)
	return nil
}

func TestC13_Admission(t *testing.T) {
	runSpec(t, Spec[c13Adm]{
		Prop: "C13", Name: "Admission",
		Rule:     "admission decisions of randomised caches on a few thousand misses: fraction within six standard deviations of one half, the same for other names and sizes and for a few files requested again and again, different for another seed; non-trivial: two different seeds",
		Quick:    40,
		Thorough: 400,
		Gen: func(rt *rapid.T) c13Adm {
			return c13Adm{
				Type: rapid.SampledFrom([]string{"random", "random_lru"}).Draw(rt, "type"),
				// seeds below 2^26: math/rand takes seeds modulo 2^31-1 and replaces 0
				Seed: rapid.Int64Range(1, 1<<26).Draw(rt, "seed"), Seed2: rapid.Int64Range(1, 1<<26).Draw(rt, "seed2"),
				// prime numbers of misses, so that the permutation is one
				N:     rapid.SampledFrom([]int{101, 1009, 2003}).Draw(rt, "n"),
				Sizes: sizesGen(rt, 1, 5, 20),
				Perm:  rapid.IntRange(2, 90).Draw(rt, "perm"),
				Few:   rapid.IntRange(1, 12).Draw(rt, "few"),
			}
		},
		Run: c13AdmRun,
	})
}
