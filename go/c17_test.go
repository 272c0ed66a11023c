//go:build go1.21

package zverif

import (
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"
	"slices"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
)

// C17: Q-table enumeration and learning.

type qlStep struct {
	K  string  `json:"k,omitempty"` // "" update, "reset" the table, "resetQ" the running total
	S  int     `json:"s"`
	S2 int     `json:"s2"`
	A  int     `json:"a"`
	R  float64 `json:"r"`
}

type qlCase struct {
	FM    fmCase   `json:"fm"`
	Evict bool     `json:"evict"`
	Seed  int64    `json:"seed"`
	Steps []qlStep `json:"steps"`
}

var qlActionNames = map[qlearn.ActionType]string{
	qlearn.ActionNotStore: "ActionNotStore", qlearn.ActionStore: "ActionStore", qlearn.ActionNotDelete: "ActionNotDelete",
	qlearn.ActionDeleteOne: "ActionDeleteOne", qlearn.ActionDeleteQuarter: "ActionDeleteQuarter",
	qlearn.ActionDeleteHalf: "ActionDeleteHalf", qlearn.ActionDeleteAll: "ActionDeleteAll",
}

func maxOf(vals []float64) float64 {
	m := vals[0]
	for _, v := range vals {
		m = math.Max(m, v)
	}
	return m
}

func qlAgent(c qlCase) (*featuremap.FeatureManager, *qlearn.Agent, []fmFeat) {
	dir, clean := scratch()
	defer clean()
	path := filepath.Join(dir, "map.json")
	writeText(path, c.FM.render(0))
	m := featuremap.Parse(path)
	a := &qlearn.Agent{}
	role := qlearn.AdditionAgent
	if c.Evict {
		role = qlearn.EvictionAgent
	}
	a.Init(&m, role, 1.0, 0.01, true, c.Seed)
	// the declared features in the order of the table
	feats := make([]fmFeat, len(m.Features))
	for i, o := range m.Features {
		for _, f := range c.FM.Feats {
			if f.Name == o.Name {
				feats[i] = f
			}
		}
	}
	return &m, a, feats
}

func c17Run(c qlCase, r *Rec) error {
	_, a, feats := qlAgent(c)
	want := 1
	for _, f := range feats {
		want *= f.count()
	}
	states := a.QTable.States
	if len(states) != want || len(a.QTable.Actions) != want || a.NumStates != want {
		return failf("%d combinations of buckets, but %d states, %d rows and %d reported", want, len(states), len(a.QTable.Actions), a.NumStates)
	}
	wantActions := []qlearn.ActionType{qlearn.ActionNotStore, qlearn.ActionStore}
	if c.Evict {
		wantActions = []qlearn.ActionType{qlearn.ActionNotDelete, qlearn.ActionDeleteOne, qlearn.ActionDeleteQuarter, qlearn.ActionDeleteHalf, qlearn.ActionDeleteAll}
	}
	acts := slices.Clone(a.QTable.ActionTypes)
	slices.Sort(acts)
	slices.Sort(wantActions)
	if !slices.Equal(acts, wantActions) {
		return failf("the actions are %v instead of %v", acts, wantActions)
	}
	acts = slices.Clone(a.QTable.ActionTypes)
	if a.NumVars != want*len(acts) {
		return failf("%d states of %d actions, %d variables reported", want, len(acts), a.NumVars)
	}
	seen := map[string]bool{}
	for i, st := range states {
		if len(st) != len(feats) {
			return failf("state %d has %d buckets for %d features", i, len(st), len(feats))
		}
		vals := make([]any, len(feats))
		for j, b := range st {
			if b < 0 || b >= feats[j].count() {
				return failf("state %d uses bucket %d of feature %q that has %d", i, b, feats[j].Name, feats[j].count())
			}
			vals[j] = feats[j].value(b)
		}
		key := fmt.Sprint(st)
		if seen[key] {
			return failf("the combination %v is a state twice", st)
		}
		seen[key] = true
		if got := a.QTable.FeatureIdxs2StateIdx(st...); got != i {
			return failf("the combination %v is state %d, its index is computed as %d", st, i, got)
		}
		if got := a.QTable.Features2Idxs(vals...); !slices.Equal(got, st) {
			return failf("the values %v are in the buckets %v, reported in %v", vals, st, got)
		}
	}
	model := make([][]float64, want)
	for i := range model {
		model[i] = make([]float64, len(acts))
	}
	total := 0.0
	check := func(at string) error {
		for i := range model {
			if len(a.QTable.Actions[i]) != len(acts) {
				return failf("%s: state %d has %d values for %d actions", at, i, len(a.QTable.Actions[i]), len(acts))
			}
			for j, act := range acts {
				if got := a.GetActionValue(i, act); !near(got, model[i][j]) {
					return failf("%s: value of %s in state %d is %v, should be %v", at, qlActionNames[act], i, got, model[i][j])
				}
				// follow the table's rounding
				model[i][j] = a.GetActionValue(i, act)
			}
		}
		if !near(a.QValue, total) {
			return failf("%s: the running total is %v, should be %v", at, a.QValue, total)
		}
		return nil
	}
	best := func(at string, s int) error {
		top := maxOf(model[s])
		if got := a.GetBestActionValue(s); got != top {
			return failf("%s: best value of state %d is %v, reported %v", at, s, top, got)
		}
		act := a.GetBestAction(s)
		j := slices.Index(acts, act)
		if j < 0 || model[s][j] != top {
			return failf("%s: action %s recommended in state %d with values %v", at, qlActionNames[act], s, model[s])
		}
		return nil
	}
	if err := check("at start"); err != nil {
		return err
	}
	updates, next := 0, false
	for i, st := range c.Steps {
		at := fmt.Sprintf("step %d %+v", i, st)
		switch st.K {
		case "":
			s, s2, j := st.S%want, st.S2%want, st.A%len(acts)
			q := model[s][j]
			m := maxOf(model[s2])
			next = next || m != 0
			model[s][j] = q + 0.9*(st.R+0.5*m-q)
			total += st.R
			a.UpdateTable(s, s2, acts[j], st.R)
			updates++
			if err := check(at); err != nil {
				return err
			}
			for _, x := range []int{s, s2} {
				if err := best(at, x); err != nil {
					return err
				}
			}
		case "reset":
			a.ResetTableAction()
			for i := range model {
				model[i] = make([]float64, len(acts))
			}
		case "resetQ":
			a.ResetQValue()
			total = 0
		}
		if err := check(at); err != nil {
			return err
		}
	}
	for s := range model {
		if err := best("at the end", s); err != nil {
			return err
		}
	}
	// coverage
	nz, rows := 0, 0
	for _, row := range model {
		any := false
		for _, v := range row {
			if v != 0 {
				nz++
				any = true
			}
		}
		if any {
			rows++
		}
	}
	wa, ws := 100*float64(nz)/float64(want*len(acts)), 100*float64(rows)/float64(want)
	if ga, gs := a.GetCoverage(); !near(ga, wa) || !near(gs, ws) {
		return failf("coverage reported as %v, %v, it is %v, %v", ga, gs, wa, ws)
	}
	// printed table
	if err := c17Table(a, feats, acts, model); err != nil {
		return err
	}
	// the dump of the agent carries the table
	raw, err := json.Marshal(a)
	if err != nil {
		return failf("the agent cannot be dumped: %v", err)
	}
	var back qlearn.Agent
	if err := json.Unmarshal(raw, &back); err != nil {
		return failf("the agent cannot be read back: %v", err)
	}
	for i := range model {
		for j, act := range acts {
			if got := back.GetActionValue(i, act); got != model[i][j] {
				return failf("dumped value of %s in state %d is %v, it is %v", qlActionNames[act], i, got, model[i][j])
			}
		}
	}
	if updates > 0 {
		r.Class("updates")
	}
	if next {
		r.Class("discounted-next-value")
		r.NonTrivial()
	}
	if len(feats) > 1 {
		r.Class("several-features")
	}
	if c.Evict {
		r.Class("eviction")
	} else {
		r.Class("addition")
	}
	return nil
}

func c17Table(a *qlearn.Agent, feats []fmFeat, acts []qlearn.ActionType, model [][]float64) error {
	lines := strings.Split(a.QTableToString(), "\n")
	head := []string{}
	for _, act := range acts {
		head = append(head, qlActionNames[act])
	}
	for _, f := range feats {
		head = append(head, f.Name)
	}
	if lines[0] != strings.Join(head, ",") {
		return failf("the table's header is %q, should be %q", lines[0], strings.Join(head, ","))
	}
	if len(lines) != len(model)+1 {
		return failf("the table prints %d rows for %d states", len(lines)-1, len(model))
	}
	for i := range model {
		row := []string{}
		for _, v := range model[i] {
			row = append(row, fmt.Sprintf("%09.2f", v))
		}
		for j, f := range feats {
			row = append(row, f.print(a.QTable.States[i][j]))
		}
		if lines[i+1] != strings.Join(row, ",") {
			return failf("state %d is printed as %q, should be %q", i, lines[i+1], strings.Join(row, ","))
		}
	}
	return nil
}

func qlFMGen(rt *rapid.T) fmCase {
	c := fmCase{}
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 1, 2, 3, 4, 5, 6}).Draw(rt, "features")
	vals := 4
	if n > 4 {
		vals = 2
	}
	for _, name := range fmNames(rt, n) {
		f := fmFeatGen(rt, name, []string{"int", "float", "float", "int", "string", "bool"}, vals)
		f.ProbeF, f.ProbeI, f.ProbeS = nil, nil, nil
		for i, s := range f.Strings { // commas and line ends would need quoting
			f.Strings[i] = strings.Trim(s, "\" ")
		}
		slices.Sort(f.Strings)
		f.Strings = slices.Compact(f.Strings)
		c.Feats = append(c.Feats, f)
	}
	return c
}

func TestC17_Table(t *testing.T) {
	runSpec(t, Spec[qlCase]{
		Prop: "C17", Name: "Table",
		Rule:     "tables over generated feature maps: every state enumerated and indexed, then a generated sequence of updates and resets checked against a plain matrix; non-trivial: an update used a non-zero next value",
		Quick:    2500,
		Thorough: 10000,
		Gen: func(rt *rapid.T) qlCase {
			c := qlCase{FM: qlFMGen(rt), Evict: rapid.Bool().Draw(rt, "evict"), Seed: rapid.Int64Range(1, 1000).Draw(rt, "seed")}
			few := rapid.SampledFrom([]int{2, 3, 1000}).Draw(rt, "span")
			c.Steps = sliceOf(rt, "steps", rapid.Custom(func(rt *rapid.T) qlStep {
				st := qlStep{S: rapid.IntRange(0, few).Draw(rt, "s"), S2: rapid.IntRange(0, few).Draw(rt, "s2"), A: rapid.IntRange(0, 4).Draw(rt, "a"),
					R: rapid.OneOf(rapid.SampledFrom([]float64{-1, 1, 0, 100, -0.5, 1000}), rapid.Float64Range(-1e4, 1e4), rapid.SampledFrom([]float64{-1e9, 3e8, -2.5e7})).Draw(rt, "r")}
				if k := rapid.IntRange(0, 30).Draw(rt, "kind"); k == 30 {
					st.K = "reset"
				} else if k == 29 {
					st.K = "resetQ"
				}
				return st
			}), 0, 1, 5, 20, 60)
			return c
		},
		Run: c17Run,
	})
}
