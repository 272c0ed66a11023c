//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"os"
	"sort"
	"testing"

	"pgregory.net/rapid"

	pcache "simulator/v2/zverif/proto/cache"
	"simulator/v2/zverif/proto/qtable"
)

// quiet runs f with the standard output discarded.
func quiet(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = null
	defer func() {
		os.Stdout = old
		null.Close()
	}()
	f()
}

type protoFeature struct {
	Limits []float64 `json:"limits"`
	Open   bool      `json:"open"` // the last bucket takes what is above the limits
}

func (f protoFeature) buckets() []float64 {
	res := append([]float64{}, f.Limits...)
	if f.Open {
		res = append(res, -1)
	}
	return res
}

func (f protoFeature) bucket(v float64) int {
	for i, l := range f.Limits {
		if v <= l {
			return i
		}
	}
	return len(f.buckets()) - 1
}

type protoUpd struct {
	Vals   []float64 `json:"vals"`
	Action int       `json:"action"`
	Reward float64   `json:"reward"`
}

type protoTable struct {
	Features []protoFeature `json:"features"`
	Actions  []int          `json:"actions"`
	Updates  []protoUpd     `json:"updates"`
}

func runProtoTable(c protoTable, rec *Rec) error {
	table := qtable.QTable{}
	feats, names := [][]float64{}, []string{}
	for i, f := range c.Features {
		feats = append(feats, f.buckets())
		names = append(names, fmt.Sprintf("f%d", i))
	}
	actions := []qtable.ActionType{}
	for _, a := range c.Actions {
		actions = append(actions, qtable.ActionType(a))
	}
	quiet(func() { table.Init(feats, names, actions) })

	model := map[string][]float64{}
	idxOf := map[string]uint64{}
	keyOf := map[uint64]string{}
	// every combination of buckets is a state of its own
	combos := [][]int{{}}
	for _, f := range feats {
		next := [][]int{}
		for _, c := range combos {
			for b := range f {
				next = append(next, append(append([]int{}, c...), b))
			}
		}
		combos = next
	}
	for _, combo := range combos {
		state := []float64{}
		for i, b := range combo {
			hot := make([]float64, len(feats[i]))
			hot[b] = 1
			state = append(state, hot...)
		}
		key, idx := fmt.Sprint(combo), table.GetStateIdx(state)
		if other, taken := keyOf[idx]; taken {
			return fmt.Errorf("the states %s and %s have the same index %d", other, key, idx)
		}
		keyOf[idx], idxOf[key] = key, idx
		model[key] = make([]float64, len(actions))
		for _, a := range actions {
			if v := table.GetAction(idx, a); v != 0 {
				return fmt.Errorf("the value of action %d in state %s starts at %v", a, key, v)
			}
		}
	}
	same := func(when string) error {
		for key, vals := range model {
			for i, a := range actions {
				if got := table.GetAction(idxOf[key], a); !near(got, vals[i]) {
					return fmt.Errorf("%s the value of action %d in state %s is %v instead of %v", when, a, key, got, vals[i])
				}
			}
		}
		return nil
	}
	changed := 0
	for n, u := range c.Updates {
		combo := []int{}
		for i, f := range c.Features {
			combo = append(combo, f.bucket(u.Vals[i]))
		}
		state := table.GenCurState(u.Vals)
		pos := 0
		for i, b := range combo {
			for j := range feats[i] {
				want := 0.0
				if j == b {
					want = 1
				}
				if pos >= len(state) || state[pos] != want {
					return fmt.Errorf("values %v give the state %v, bucket %d of feature %d (%v) is wrong", u.Vals, state, j, i, feats[i])
				}
				pos++
			}
		}
		if pos != len(state) {
			return fmt.Errorf("values %v give a state of %d positions instead of %d", u.Vals, len(state), pos)
		}
		key := fmt.Sprint(combo)
		ai := u.Action % len(actions)
		vals := model[key]
		top := math.Inf(-1)
		for _, v := range vals {
			top = math.Max(top, v)
		}
		old := vals[ai]
		vals[ai] = old + 0.9*(u.Reward+0.005*top-old)
		if vals[ai] != old {
			changed++
		}
		table.Update(state, actions[ai], u.Reward)
		if n < 12 || n == len(c.Updates)-1 {
			if err := same(fmt.Sprintf("after update %d", n)); err != nil {
				return err
			}
		}
		best := table.GetBestAction(state)
		at := -1
		for i, a := range actions {
			if a == best {
				at = i
			}
		}
		if at < 0 {
			return fmt.Errorf("the recommended action %d is not one of %v", best, actions)
		}
		for i := range vals {
			if vals[i] > vals[at] && !near(vals[i], vals[at]) {
				return fmt.Errorf("after update %d action %d of value %v is recommended in state %s over action %d of value %v", n, best, vals[at], key, actions[i], vals[i])
			}
		}
		if at > 0 {
			rec.Class("best-not-first")
		}
	}
	if len(c.Actions) == 2 && c.Actions[0] == 1 {
		rec.Class("reversed-actions")
	}
	if changed > 1 && len(combos) > 1 {
		rec.NonTrivial()
	}
	return nil
}

func TestC29_Table(t *testing.T) {
	runSpec(t, Spec[protoTable]{
		Prop: "C29", Name: "Table",
		Rule:     "random features (with and without an open bucket), action lists and updates against a map of states; non-trivial: more than one state and more than one update that changes a value",
		Quick:    4000,
		Thorough: 25000,
		Gen: func(rt *rapid.T) protoTable {
			c := protoTable{Actions: rapid.SampledFrom([][]int{{0, 1}, {1, 0}, {1, 0}, {0}, {1}}).Draw(rt, "actions")}
			n := rapid.IntRange(1, 4).Draw(rt, "features")
			for i := 0; i < n; i++ {
				set := map[float64]bool{}
				for _, v := range rapid.SliceOfN(rapid.IntRange(0, 40), 1, 5).Draw(rt, "limits") {
					set[float64(v)/2] = true
				}
				f := protoFeature{Open: rapid.Bool().Draw(rt, "open")}
				for v := range set {
					f.Limits = append(f.Limits, v)
				}
				sort.Float64s(f.Limits)
				c.Features = append(c.Features, f)
			}
			c.Updates = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) protoUpd {
				u := protoUpd{Action: rapid.IntRange(0, 1).Draw(rt, "action"), Reward: float64(rapid.IntRange(-20, 20).Draw(rt, "reward")) / 2}
				for _, f := range c.Features {
					v := f.Limits[rapid.IntRange(0, len(f.Limits)-1).Draw(rt, "near")] + rapid.SampledFrom([]float64{0, 0, 0.25, -0.25, 100}).Draw(rt, "off")
					if !f.Open && v > f.Limits[len(f.Limits)-1] {
						v = f.Limits[len(f.Limits)-1]
					}
					if v < 0 {
						v = 0
					}
					u.Vals = append(u.Vals, v)
				}
				return u
			}), 1, 40).Draw(rt, "updates")
			return c
		},
		Run: runProtoTable,
	})
}

type protoReq struct {
	F     int  `json:"f"`
	Store bool `json:"store"`
	Drop  bool `json:"drop,omitempty"`
}

type protoCache struct {
	Max   float64    `json:"max"`
	Sizes []float64  `json:"sizes"`
	Reqs  []protoReq `json:"reqs"`
}

func runProtoCache(c protoCache, rec *Rec) error {
	inst := pcache.SimCache{MaxSize: c.Max}
	inst.Init()
	reqs := map[int]float64{}
	held := map[int]bool{}
	name := func(f int) string { return fmt.Sprintf("file%d", f) }
	value := func(f int) float64 { return c.Sizes[f] * reqs[f] }
	size := func() float64 {
		sum := 0.0
		for f := range held {
			sum += c.Sizes[f]
		}
		return sum
	}
	min := func() (int, bool) {
		best, tie := -1, false
		for f := range held {
			switch {
			case best < 0 || value(f) < value(best):
				best, tie = f, false
			case value(f) == value(best):
				tie = true
			}
		}
		return best, tie
	}
	evictions := 0
	for n, q := range c.Reqs {
		at := fmt.Sprintf("request %d of %s", n, name(q.F))
		if q.Drop {
			inst.Remove(name(q.F))
			delete(held, q.F)
			rec.Class("removed")
		} else {
			reqs[q.F]++
			gs, gn, gv := inst.UpdateStats(name(q.F), c.Sizes[q.F])
			if gs != c.Sizes[q.F] || gn != reqs[q.F] || gv != value(q.F) {
				return fmt.Errorf("%s: the statistics are size %v, %v requests, value %v instead of %v, %v, %v", at, gs, gn, gv, c.Sizes[q.F], reqs[q.F], value(q.F))
			}
			st := inst.GetStats(name(q.F))
			if st == nil || st.Size != gs || st.NumReq != gn || st.Value != gv {
				return fmt.Errorf("%s: the statistics kept are %+v", at, st)
			}
			if q.Store {
				switch {
				case c.Sizes[q.F] > c.Max:
					rec.Class("too-big")
				case held[q.F]:
					rec.Class("again")
				default:
					for size()+c.Sizes[q.F] > c.Max {
						f, tie := min()
						if tie {
							rec.Class("tie")
							return nil // either file may go
						}
						delete(held, f)
						evictions++
					}
					held[q.F] = true
				}
				inst.Insert(name(q.F), c.Sizes[q.F])
			}
		}
		points := 0.0
		for f := range held {
			points += value(f)
		}
		if got := inst.GetSize(); got != size() || got > c.Max {
			return fmt.Errorf("%s: the cache of %v occupies %v, %v expected (%v)", at, c.Max, got, size(), held)
		}
		if got := inst.GetCapacity(); !near(got, size()/c.Max*100) {
			return fmt.Errorf("%s: the occupancy is %v%%, %v expected", at, got, size()/c.Max*100)
		}
		if got := inst.GetPoints(); !near(got, points) {
			return fmt.Errorf("%s: the points are %v, %v expected", at, got, points)
		}
		if f, tie := min(); f >= 0 {
			gotName, gotVal := inst.GetMinValue()
			if gotVal != value(f) || (!tie && gotName != name(f)) {
				return fmt.Errorf("%s: the lowest value is %v of %s, expected %v of %s", at, gotVal, gotName, value(f), name(f))
			}
		}
	}
	if evictions > 0 {
		rec.NonTrivial()
	}
	return nil
}

func TestC29_Cache(t *testing.T) {
	runSpec(t, Spec[protoCache]{
		Prop: "C29", Name: "Cache",
		Rule:     "random sizes and store/skip/remove requests against a set of files; non-trivial: at least one file was evicted to make room",
		Quick:    8000,
		Thorough: 60000,
		Gen: func(rt *rapid.T) protoCache {
			c := protoCache{Max: rapid.SampledFrom([]float64{10, 20, 50, 100, 33.5}).Draw(rt, "max")}
			n := rapid.SampledFrom([]int{2, 4, 8, 16}).Draw(rt, "files")
			for i := 0; i < n; i++ {
				c.Sizes = append(c.Sizes, float64(rapid.IntRange(1, 2400).Draw(rt, "size"))/64)
			}
			c.Reqs = sliceOf(rt, "reqs", rapid.Custom(func(rt *rapid.T) protoReq {
				return protoReq{F: rapid.IntRange(0, n-1).Draw(rt, "f"), Store: rapid.IntRange(0, 4).Draw(rt, "store") > 0, Drop: rapid.IntRange(0, 15).Draw(rt, "drop") == 15}
			}), 4, 12, 40)
			return c
		},
		Run: runProtoCache,
	})
}
