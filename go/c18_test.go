//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache/ai/qlearn"
)

// C18: exploration schedule and memory of choices.

type expStep struct {
	K string  `json:"k"` // step, unleash, target
	N int     `json:"n,omitempty"`
	T float64 `json:"t,omitempty"`
}

type expCase struct {
	Decay   float64   `json:"decay"`
	Unleash bool      `json:"unleash"`
	Evict   bool      `json:"evict"`
	Steps   []expStep `json:"steps"`
}

func oneFeature() fmCase {
	return fmCase{Feats: []fmFeat{{Name: "size", Type: "float", Floats: []float64{1, 4}, OpenRight: true}}}
}

func c18ExpRun(c expCase, r *Rec) error {
	_, a, _ := qlAgent(qlCase{FM: oneFeature(), Evict: c.Evict, Seed: 3})
	role := qlearn.AdditionAgent
	if c.Evict {
		role = qlearn.EvictionAgent
	}
	*a = qlearn.Agent{}
	m, _, _ := qlAgent(qlCase{FM: oneFeature(), Evict: c.Evict, Seed: 3})
	a.Init(m, role, 1.0, c.Decay, c.Unleash, 3)
	const low = 0.1
	at := func(step int64) float64 { return low + (1-low)*math.Exp(-c.Decay*float64(step)) }
	n := int64(0)
	eps := 1.0
	if a.Epsilon != eps {
		return failf("the agent starts with epsilon %v", a.Epsilon)
	}
	floor := false
	for i, st := range c.Steps {
		where := fmt.Sprintf("step %d %+v", i, st)
		switch st.K {
		case "step":
			for j := 0; j < st.N; j++ {
				before := a.Epsilon
				a.UpdateEpsilon()
				n++
				if a.Epsilon > before {
					return failf("%s: an exploration update raised epsilon from %v to %v", where, before, a.Epsilon)
				}
				if a.Epsilon < low {
					return failf("%s: epsilon %v is below its minimum", where, a.Epsilon)
				}
				if !near(a.Epsilon, at(n)) {
					return failf("%s: after %d updates epsilon is %v, should be %v", where, n, a.Epsilon, at(n))
				}
				if a.Epsilon < before {
					r.Class("decayed")
				} else if a.Epsilon < 1 {
					floor = true
				}
			}
			eps = a.Epsilon
		case "unleash":
			a.UnleashEpsilon(nil)
			if c.Unleash {
				eps, n = 1, 0
				r.Class("unleashed")
			}
			if a.Epsilon != eps {
				return failf("%s: epsilon is %v, should be %v (unleashing allowed: %t)", where, a.Epsilon, eps, c.Unleash)
			}
		case "target":
			a.UnleashEpsilon(st.T)
			if !c.Unleash {
				if a.Epsilon != eps {
					return failf("%s: epsilon changed from %v to %v though unleashing is not allowed", where, eps, a.Epsilon)
				}
				break
			}
			if a.Epsilon > st.T && a.Epsilon > low {
				return failf("%s: epsilon is %v, above the requested level", where, a.Epsilon)
			}
			// the schedule restarts and is followed to the first level reached
			n = 0
			for at(n) > st.T {
				n++
			}
			// rounding at the boundary may take one update more
			if !near(a.Epsilon, at(n)) && near(a.Epsilon, at(n+1)) && near(at(n), st.T) {
				n++
			}
			if !near(a.Epsilon, at(n)) {
				return failf("%s: epsilon is %v, the schedule's first level reaching it is %v", where, a.Epsilon, at(n))
			}
			eps = a.Epsilon
			r.Class("targeted")
		case "reset":
			a.ResetParams(1.0, c.Decay)
			eps, n = 1, 0
			if a.Epsilon != 1 || a.QValue != 0 {
				return failf("%s: parameters restored to epsilon %v and total %v", where, a.Epsilon, a.QValue)
			}
		}
	}
	if floor {
		r.Class("at-minimum")
	}
	if r.Is("decayed") {
		r.NonTrivial()
	}
	return nil
}

func TestC18_Epsilon(t *testing.T) {
	runSpec(t, Spec[expCase]{
		Prop: "C18", Name: "Epsilon",
		Rule:     "generated sequences of exploration updates, unleashings (full and to a level) and parameter resets against the closed formula of the schedule; non-trivial: epsilon decayed",
		Quick:    3000,
		Thorough: 30000,
		Gen: func(rt *rapid.T) expCase {
			c := expCase{Decay: rapid.SampledFrom([]float64{0.0000042, 0.001, 0.01, 0.1, 0.5, 1, 5}).Draw(rt, "decay"),
				Unleash: rapid.Bool().Draw(rt, "unleash"), Evict: rapid.Bool().Draw(rt, "evict")}
			c.Steps = sliceOf(rt, "steps", rapid.Custom(func(rt *rapid.T) expStep {
				st := expStep{K: rapid.SampledFrom([]string{"step", "step", "step", "unleash", "target", "reset"}).Draw(rt, "k")}
				switch st.K {
				case "step":
					st.N = rapid.SampledFrom([]int{1, 1, 2, 7, 50, 400}).Draw(rt, "n")
				case "target":
					targets := []float64{1, 0.9, 0.5, 0.33, 0.2, 0.15}
					if c.Decay < 0.001 {
						targets = []float64{1, 0.9, 0.999}
					}
					st.T = rapid.SampledFrom(targets).Draw(rt, "t")
				}
				return st
			}), 1, 4, 10)
			return c
		},
		Run: c18ExpRun,
	})
}

type memStep struct {
	K string `json:"k"` // save, saveAll, remember, get, delete, reset
	F int    `json:"f"`
	N int    `json:"n,omitempty"`
}

type memCase struct {
	Kinds int       `json:"kinds"`
	Steps []memStep `json:"steps"`
}

func c18Key(f, kinds int) any {
	switch f % kinds {
	case 1:
		return fmt.Sprintf("%d", f)
	case 2:
		return [2]int{f, 1}
	}
	return int64(f)
}

func c18MemRun(c memCase, r *Rec) error {
	_, a, _ := qlAgent(qlCase{FM: oneFeature(), Seed: 3})
	model := map[any][]qlearn.Choice{}
	tick := int64(0)
	same := func(at string, key any) error {
		want, in := model[key]
		var got []qlearn.Choice
		err := safely(func() error { got = a.GetMemories(key); return nil })
		if !in {
			if err == nil {
				return failf("%s: memories %v of a key that has none", at, got)
			}
			return nil
		}
		if err != nil {
			return failf("%s: the memories of %v are gone: %v", at, key, err)
		}
		if !slices.Equal(got, want) {
			return failf("%s: memories of %v are %+v, should be %+v", at, key, got, want)
		}
		return nil
	}
	var held [][]qlearn.Choice // recalled choices and copies of them
	for i, st := range c.Steps {
		at := fmt.Sprintf("step %d %+v", i, st)
		key := c18Key(st.F, c.Kinds)
		switch st.K {
		case "save", "saveAll":
			for j := 0; j < st.N; j++ {
				tick++
				ch := qlearn.Choice{State: int(tick) % 7, Action: qlearn.ActionStore - qlearn.ActionType(tick%2), Tick: tick, DeltaT: tick * 3, Capacity: float64(tick) / 4,
					Hit: tick%3 == 0, Size: float64(tick % 11), Frequency: tick % 5}
				model[key] = append(slices.Clone(model[key]), ch)
				if st.K == "save" {
					if len(model[key]) > 32 {
						// a bounded save drops one
						model[key] = model[key][1:]
						r.Class("bound-reached")
					}
					a.SaveMemory(key, ch)
				} else {
					a.SaveMemoryWithNoLimits(key, ch)
				}
			}
		case "remember":
			want, in := model[key]
			got, ok := a.Remember(key)
			if ok != in || !slices.Equal(got, want) {
				return failf("%s: recalled %+v (%t), should be %+v (%t)", at, got, ok, want, in)
			}
			delete(model, key)
			held = append(held, got, slices.Clone(got))
			if in {
				r.Class("recalled")
			}
		case "delete":
			a.DeleteMemory(key)
			delete(model, key)
		case "reset":
			a.ResetMemories()
			model = map[any][]qlearn.Choice{}
		}
		for f := 0; f < 6; f++ {
			if err := same(at, c18Key(f, c.Kinds)); err != nil {
				return err
			}
		}
		if len(a.Memory) != len(model) {
			return failf("%s: %d keys remembered, should be %d", at, len(a.Memory), len(model))
		}
	}
	for i := 0; i < len(held); i += 2 {
		if !slices.Equal(held[i], held[i+1]) {
			return failf("recalled choices changed afterwards: %+v, were %+v", held[i], held[i+1])
		}
	}
	if r.Is("recalled") || r.Is("bound-reached") {
		r.NonTrivial()
	}
	return nil
}

func TestC18_Memory(t *testing.T) {
	runSpec(t, Spec[memCase]{
		Prop: "C18", Name: "Memory",
		Rule:     "generated sequences of bounded and unbounded saves, recalls, deletions and resets over a few keys against a map of lists; non-trivial: choices were recalled or the bound of 32 was reached",
		Quick:    3000,
		Thorough: 30000,
		Gen: func(rt *rapid.T) memCase {
			c := memCase{Kinds: rapid.IntRange(1, 3).Draw(rt, "kinds")}
			bounded := rapid.Bool().Draw(rt, "bounded")
			c.Steps = sliceOf(rt, "steps", rapid.Custom(func(rt *rapid.T) memStep {
				st := memStep{K: rapid.SampledFrom([]string{"save", "save", "save", "remember", "get", "delete", "reset"}).Draw(rt, "k"), F: rapid.IntRange(0, 5).Draw(rt, "f")}
				if st.K == "save" {
					st.N = rapid.SampledFrom([]int{1, 1, 2, 5, 31, 32, 33, 40}).Draw(rt, "n")
					// a key is saved either with or without limits, as by the caches
					if !bounded && st.F < 3 {
						st.K = "saveAll"
						if rapid.IntRange(0, 24).Draw(rt, "many") == 0 {
							st.N = rapid.SampledFrom([]int{300, 600, 1100}).Draw(rt, "nMany")
						}
					}
				}
				return st
			}), 1, 5, 12)
			return c
		},
		Run: c18MemRun,
	})
}
