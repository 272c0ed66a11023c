//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/ai/qlearn"
	"simulator/v2/cache/files"
)

// C40, C41, C42: what the agents of a learning cache learn, and when they
// explore again.

// mind is what an agent knows at a moment.
type mind struct {
	Q        [][]float64
	States   [][]int
	Acts     []qlearn.ActionType
	Features []string
	Epsilon  float64
	QValue   float64
	StepNum  int64
	Decay    float64
	Mem      map[string][]qlearn.Choice // by file name, or "NotDelete"
	Last     map[int]qlearn.ActionType  // states and actions of the last decision
	NoL      bool                       // the last decision cannot be seen
}

// mindOf reads an agent ("add" or "evic") in place: its memory is not dumped.
// ok is false when there is no such agent or it cannot be seen.
func mindOf(inst cache.Cache, which string) (m mind, ok bool) {
	v := reflect.Indirect(reflect.ValueOf(inst))
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == reflect.TypeOf(qlearn.Agent{}) && strings.HasPrefix(strings.ToLower(v.Type().Field(i).Name), which):
			q := f.FieldByName("QTable")
			rows := q.FieldByName("Actions")
			for s := 0; s < rows.Len(); s++ {
				row, state := []float64{}, []int{}
				for a := 0; a < rows.Index(s).Len(); a++ {
					row = append(row, rows.Index(s).Index(a).Float())
				}
				for k, st := 0, q.FieldByName("States").Index(s); k < st.Len(); k++ {
					state = append(state, int(st.Index(k).Int()))
				}
				m.Q, m.States = append(m.Q, row), append(m.States, state)
			}
			if len(m.Q) == 0 {
				return m, false
			}
			for k, a := 0, q.FieldByName("ActionTypes"); k < a.Len(); k++ {
				m.Acts = append(m.Acts, qlearn.ActionType(a.Index(k).Int()))
			}
			for k, l := 0, q.FieldByName("FeatureManager").Elem().FieldByName("Features"); k < l.Len(); k++ {
				m.Features = append(m.Features, l.Index(k).FieldByName("Name").String())
			}
			m.Epsilon, m.QValue = f.FieldByName("Epsilon").Float(), f.FieldByName("QValue").Float()
			m.StepNum, m.Decay = f.FieldByName("StepNum").Int(), f.FieldByName("DecayRateEpsilon").Float()
			m.Mem = memOf(f.FieldByName("Memory"))
			ok = true
		case f.Type() == reflect.TypeOf(cache.CategoryManager{}):
			for k := 0; k < f.NumField(); k++ {
				if l := f.Field(k); l.Kind() == reflect.Map && l.Type().Elem() == reflect.TypeOf(cache.CatState{}) {
					m.Last = map[int]qlearn.ActionType{}
					for it := l.MapRange(); it.Next(); {
						m.Last[int(it.Value().FieldByName("Idx").Int())] = qlearn.ActionType(it.Value().FieldByName("Action").Int())
					}
				}
			}
		}
	}
	m.NoL = m.Last == nil
	return m, ok
}

func memOf(v reflect.Value) map[string][]qlearn.Choice {
	res := map[string][]qlearn.Choice{}
	for it := v.MapRange(); it.Next(); {
		key := it.Key()
		if key.Kind() == reflect.Interface {
			key = key.Elem()
		}
		name := ""
		if key.Kind() == reflect.String {
			name = key.String()
		} else {
			name = strconv.FormatInt(key.Int(), 10)
		}
		list := []qlearn.Choice{}
		for i := 0; i < it.Value().Len(); i++ {
			c := it.Value().Index(i)
			list = append(list, qlearn.Choice{
				State: int(c.FieldByName("State").Int()), Action: qlearn.ActionType(c.FieldByName("Action").Int()),
				Tick: c.FieldByName("Tick").Int(), DeltaT: c.FieldByName("DeltaT").Int(), Capacity: c.FieldByName("Capacity").Float(),
				Hit: c.FieldByName("Hit").Bool(), Size: c.FieldByName("Size").Float(), Frequency: c.FieldByName("Frequency").Int(),
			})
		}
		res[name] = list
	}
	return res
}

// table is the oracle's copy of what an agent has learnt.
type table struct {
	q        [][]float64
	eps, qv  float64
	step     int64
	decay    float64
	actions  map[qlearn.ActionType]int
	rewarded int
}

func (m mind) table() *table {
	t := &table{eps: m.Epsilon, qv: m.QValue, step: m.StepNum, decay: m.Decay, actions: map[qlearn.ActionType]int{}}
	for _, row := range m.Q {
		t.q = append(t.q, slices.Clone(row))
	}
	for i, a := range m.Acts {
		t.actions[a] = i
	}
	return t
}

// learn applies a reward: the Bellman update, the total, a step of epsilon.
func (t *table) learn(state, next int, a qlearn.ActionType, reward float64) {
	i := t.actions[a]
	t.q[state][i] += 0.9 * (reward + 0.5*slices.Max(t.q[next]) - t.q[state][i])
	t.qv += reward
	t.rewarded++
	t.tick()
}

func (t *table) tick() {
	if t.eps > 0.1 {
		t.step++
		t.eps = 0.1 + 0.9*math.Exp(-t.decay*float64(t.step))
	}
}

func (t *table) check(got mind, what string) error {
	for s, row := range t.q {
		for a, v := range row {
			if !near(got.Q[s][a], v) {
				return failf("%s: state %d has the values %v, should have %v", what, s, got.Q[s], row)
			}
		}
	}
	if len(got.Q) != len(t.q) || !near(got.QValue, t.qv) || !near(got.Epsilon, t.eps) || got.StepNum != t.step {
		return failf("%s: total reward %v, epsilon %v after %d steps; should be %v, %v after %d", what, got.QValue, got.Epsilon, got.StepNum, t.qv, t.eps, t.step)
	}
	return nil
}

// stateOf is the number of the state with the given values, in a table of the
// features with the given limits.
func stateOf(m mind, limits map[string]FeatObj, vals map[string]any) int {
	vec := []int{}
	for _, f := range m.Features {
		lim := limits[f].Buckets
		idx := len(lim)
		for i, l := range lim {
			if b, is := l.(bool); is {
				if b == vals[f].(bool) {
					idx = i
					break
				}
				continue
			}
			if vals[f].(float64) <= bucketNum(l) {
				idx = i
				break
			}
		}
		vec = append(vec, idx)
	}
	for i, s := range m.States {
		if slices.Equal(s, vec) {
			return i
		}
	}
	panic(fmt.Sprintf("no state %v", vec))
}

// moment is the cache at a point of a request.
type moment struct {
	add, evc     mind
	hasA, hasE   bool
	held         map[int64]files.Stats
	stats        files.Stats // of the requested file
	cnt          Counters
	calls, force int64
	store, not   int64
}

// momentOf looks at what is asked for: "a" the admission agent, "e" the
// eviction agent, "h" the files held.
func momentOf(c cache.Cache, what string) (m moment, err error) {
	if strings.Contains(what, "h") {
		m.held = snapOf(c).Held
	}
	m.cnt = counters(c)
	if strings.Contains(what, "a") {
		m.add, m.hasA = mindOf(c, "add")
	}
	if strings.Contains(what, "e") {
		m.evc, m.hasE = mindOf(c, "evic")
	}
	rep, err := rlReportOf(c)
	m.calls, m.force, m.store, m.not = rep.Calls, rep.Forced, rep.Store, rep.NotStore
	return m, err
}

// spy40 looks at the cache between the phases of a request.
type spy40 struct {
	cache.Cache
	called          bool
	pre, begun, end moment // before, after BeforeRequest, at AfterRequest
	err             error
	what            string
}

func (s *spy40) note(m *moment) {
	var err error
	if *m, err = momentOf(s.Cache, s.what); err != nil && s.err == nil {
		s.err = err
	}
}

func (s *spy40) BeforeRequest(req *cache.Request, hit bool) (*files.Stats, bool) {
	if !strings.Contains(s.what, "h") {
		s.note(&s.pre)
	}
	st, hit := s.Cache.BeforeRequest(req, hit)
	s.note(&s.begun)
	s.begun.stats = *st
	return st, hit
}

func (s *spy40) AfterRequest(req *cache.Request, st *files.Stats, hit bool, added bool) {
	s.called = true
	s.note(&s.end)
	s.Cache.AfterRequest(req, st, hit, added)
}

// step40 is a processed request with the cache around it.
type step40 struct {
	spy     *spy40
	after   moment
	name    int64
	size    float64
	hit     bool
	added   bool
	now     int64
	changed bool // of another time than the last processed one
}

// watch40 runs a history and hands every processed request to judge.
func watch40(c HistCase, r *Rec, what string, judge func(st step40) error) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		now, last := day0, int64(-1)
		for i, op := range c.Ops {
			now += op.D
			if op.K != "" {
				applyOther(inst, op)
				continue
			}
			spy := &spy40{Cache: inst, what: what}
			hits := inst.NumHits()
			added, redirected := cache.GetFile(spy, fname(op.F), c.Sizes[op.F], op.P, op.E, now, op.S, op.U, int64(0))
			if redirected || !spy.called {
				continue
			}
			if spy.err != nil {
				return spy.err
			}
			st := step40{spy: spy, name: fname(op.F), size: c.Sizes[op.F], hit: inst.NumHits() > hits, added: added, now: now, changed: now != last}
			last = now
			var err error
			if st.after, err = momentOf(inst, what); err != nil {
				return err
			}
			if err := judge(st); err != nil {
				return fmt.Errorf("op %d %+v: %w", i, op, err)
			}
		}
		return nil
	})
}

func sameMem(got, want map[string][]qlearn.Choice) error {
	for k, l := range want {
		if len(l) > 0 && !slices.Equal(got[k], l) {
			return failf("%s is remembered with %+v, should be with %+v", k, got[k], l)
		}
	}
	for k, l := range got {
		if len(l) > 0 && len(want[k]) == 0 {
			return failf("%s is remembered with %+v, should not be", k, l)
		}
	}
	return nil
}

func copyMem(m map[string][]qlearn.Choice) map[string][]qlearn.Choice {
	res := map[string][]qlearn.Choice{}
	for k, l := range m {
		res[k] = slices.Clone(l)
	}
	return res
}

// ----- C40: the admission agent ------------------------------------------------

func c40Run(c HistCase, r *Rec) error {
	rl := c.Cfg.RL
	r.Class(rl.Type)
	return watch40(c, r, "a", func(st step40) error {
		b, e, a := st.spy.begun, st.spy.end, st.after
		if !b.hasA {
			r.Class("not-judged")
			return nil
		}
		key := strconv.FormatInt(st.name, 10)
		want := b.add.table()
		mem := copyMem(b.add.Mem)
		cn := b.cnt
		if rl.Type == "SCDL" {
			for _, ch := range mem[key] {
				gb := ch.Size / 1024
				reward := 0.0
				switch {
				case ch.Hit:
					return failf("a hit is remembered as a choice")
				case ch.Action == qlearn.ActionNotStore:
					if cn.OnMiss/cn.BW < 0.5 || cn.Written/cn.Read < 0.1 {
						reward -= gb
						r.Class("refusal-punished")
					}
				case ch.Action == qlearn.ActionStore:
					if cn.OnMiss/cn.BW > 0.75 || cn.Written/cn.Read > 0.5 {
						reward -= gb
						r.Class("store-punished")
					}
				}
				if cn.OnMiss/cn.Read > 0.5 {
					reward -= gb
				}
				if reward == 0 {
					reward = -gb
					if st.hit {
						reward = gb
						r.Class("praised")
					}
				}
				want.learn(ch.State, ch.State, ch.Action, reward)
			}
			delete(mem, key)
			if err := want.check(e.add, "after the decision"); err != nil {
				return err
			}
		}
		if !st.hit {
			stats := b.stats
			vals := map[string]any{
				"hit": false, "size": stats.Size, "numReq": float64(stats.Frequency), "deltaLastRequest": float64(stats.DeltaLastRequest),
				"percOcc": cn.Cap, "hitRate": cn.HitRate,
			}
			ch := qlearn.Choice{State: stateOf(b.add, rl.Add, vals), Action: qlearn.ActionNotStore, DeltaT: stats.DeltaLastRequest, Capacity: cn.Cap, Size: st.size, Frequency: stats.Frequency}
			if e.store > b.store {
				ch.Action = qlearn.ActionStore
			}
			if l := e.add.Mem[key]; len(l) > 0 {
				ch.Tick = l[len(l)-1].Tick
			}
			mem[key] = append(mem[key], ch)
		}
		if err := sameMem(e.add.Mem, mem); err != nil {
			return err
		}
		if rl.Type == "SCDL2" {
			if err := want.check(e.add, "before the request is accounted"); err != nil {
				return err
			}
			l := mem[key]
			for i := 0; i+2 < len(l); i++ {
				reward := 1.0
				if !st.hit {
					reward = -1
					if l[i].Action == qlearn.ActionNotStore {
						reward = -2
						r.Class("refusal-punished")
					}
				} else {
					r.Class("praised")
				}
				want.learn(l[i].State, l[i+1].State, l[i].Action, reward)
			}
		}
		if err := want.check(a.add, "after the request"); err != nil {
			return err
		}
		if err := sameMem(a.add.Mem, mem); err != nil {
			return err
		}
		if want.rewarded > 0 {
			r.NonTrivial()
		}
		if want.rewarded > 1 {
			r.Class("several-rewards")
		}
		return nil
	})
}

// rlHist draws a history of a learning cache with the given agents.
func rlHist(rt *rapid.T, ok func(*RLCfg) bool, maxLen ...int) HistCase {
	c := HistCase{Cfg: quietCfg(rt, []string{"aiRL"})}
	if rapid.IntRange(0, 2).Draw(rt, "tightBW") == 0 {
		bwGen(rt, &c.Cfg)
		c.Cfg.Redirect = rapid.Bool().Draw(rt, "redirect")
	}
	if rapid.IntRange(0, 3).Draw(rt, "hasPrune") == 0 {
		pruneGen(rt, &c.Cfg)
	}
	c.Sizes = sizesGen(rt, 2, 3, 6, 12)
	for {
		completeCfg(rt, &c.Cfg, len(c.Sizes), false)
		if ok(c.Cfg.RL) {
			// small tables: every state is looked at around every request
			large := rapid.IntRange(0, 14).Draw(rt, "large") == 0
			for _, name := range []string{"hitRate", "percOcc", "catPercOcc"} {
				if large && len(c.Cfg.RL.Evict) > 0 {
					c.Cfg.RL.Evict[name] = FeatObj{Type: "float", Buckets: bucketsF(rt, name, []float64{10, 25, 50, 75, 90}), OpenRight: true}
				} else if len(c.Cfg.RL.Evict) > 4 {
					delete(c.Cfg.RL.Evict, name)
				}
			}
			break
		}
	}
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 14, "clearStats", "clearStats", "clearFiles"), maxLen...)
	return c
}

func TestC40_Admission(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C40", Name: "Admission",
		Rule:     "histories of learning caches with an admission agent: the remembered choice, every reward, the table, the total and epsilon recomputed around each request; non-trivial: a reward was due",
		Quick:    500,
		Thorough: 8000,
		Gen: func(rt *rapid.T) HistCase {
			return rlHist(rt, func(rl *RLCfg) bool { return len(rl.Add) > 0 }, 4, 12, 40, 80)
		},
		Run: c40Run,
	})
}

// ----- C41: the eviction agent ---------------------------------------------------

func c41Run(c HistCase, r *Rec) error {
	rl := c.Cfg.RL
	r.Class(rl.EvType)
	return watch40(c, r, "eh", func(st step40) error {
		b, e, a := st.spy.begun, st.spy.end, st.after
		if !b.hasE || b.evc.NoL {
			r.Class("not-judged")
			return nil
		}
		want := b.evc.table()
		mem := copyMem(b.evc.Mem)
		states := b.evc.States
		feature := map[string]int{}
		for i, f := range b.evc.Features {
			feature[f] = i
		}
		follows := func(old, new int) bool {
			o, n := states[old], states[new]
			s, d, q := feature["catSize"], feature["catDeltaLastRequest"], feature["catNumReq"]
			return n[s] == o[s] && n[d] == o[d] && n[q] >= o[q]
		}
		sorted := func(l map[int]qlearn.ActionType) []int {
			res := []int{}
			for s := range l {
				res = append(res, s)
			}
			sort.Ints(res)
			return res
		}
		// --- the decision
		calls := e.calls - b.calls
		if e.force > b.force {
			for _, ch := range mem["NotDelete"] {
				for _, s := range sorted(b.evc.Last) {
					if follows(ch.State, s) {
						want.learn(ch.State, s, ch.Action, -1)
						r.Class("kept-punished")
					}
				}
			}
			delete(mem, "NotDelete")
		}
		held := b.held
		if calls > 0 {
			inside := map[int64]files.Stats{}
			for n, f := range e.held {
				if n != st.name {
					inside[n] = f
				}
			}
			if err := c41Call(rl, b, e, held, inside, mem, calls, r); err != nil {
				return err
			}
			for _, s := range sorted(e.evc.Last) {
				reward := 1.0
				if !st.added && e.evc.Last[s] == qlearn.ActionNotDelete {
					reward = -1
					r.Class("no-room")
				}
				want.learn(s, s, e.evc.Last[s], reward)
			}
		} else if err := sameMem(e.evc.Mem, mem); err != nil {
			return err
		}
		if err := want.check(e.evc, "after the decision"); err != nil {
			return err
		}
		// --- the rewards of the file
		mem = copyMem(e.evc.Mem)
		l := mem[strconv.FormatInt(st.name, 10)]
		for i := 0; i+1 < len(l); i++ {
			kept := l[i].Action == qlearn.ActionNotDelete
			reward := 0.0
			switch {
			case st.hit && !kept:
				reward = 1
			case st.hit && l[i].Capacity < l[i+1].Capacity:
				reward = 2
			case st.hit:
				reward = 3
			case kept:
				reward = -1
			case l[i].Capacity < l[i+1].Capacity:
				reward = -3
			default:
				reward = -2
			}
			r.Class(fmt.Sprintf("reward%+.0f", reward))
			want.learn(l[i].State, l[i+1].State, l[i].Action, reward)
		}
		if err := want.check(a.evc, "after the request"); err != nil {
			return err
		}
		if calls := a.calls - e.calls; calls > 0 {
			if err := c41Call(rl, e, a, e.held, a.held, mem, calls, r); err != nil {
				return err
			}
		} else if err := sameMem(a.evc.Mem, mem); err != nil {
			return err
		}
		if want.rewarded > 0 {
			r.NonTrivial()
		}
		return nil
	})
}

// c41Call checks what a single call remembers: one state for every category of
// the files held, and for every file deleted or kept on purpose the choice made.
func c41Call(rl *RLCfg, from, to moment, before, after map[int64]files.Stats, mem map[string][]qlearn.Choice, calls int64, r *Rec) error {
	for k, l := range mem {
		if got := to.evc.Mem[k]; len(got) < len(l) || !slices.Equal(got[:len(l)], l) {
			return failf("%s was remembered with %+v, is after a decision with %+v", k, l, got)
		}
	}
	if calls > 1 {
		r.Class("called-twice")
		return nil
	}
	byState := map[int][]files.Stats{}
	for _, members := range categories(rl.Evict, before) {
		sum := 0.0
		for _, f := range members {
			sum += f.Size
		}
		f := members[0]
		s := stateOf(from.evc, rl.Evict, map[string]any{
			"catSize": f.Size, "catNumReq": float64(f.Frequency), "catDeltaLastRequest": float64(f.Recency),
			"catPercOcc": sum / from.cnt.Max * 100, "percOcc": from.cnt.Cap, "hitRate": from.cnt.HitRate,
		})
		byState[s] = members
	}
	if len(byState) != len(to.evc.Last) {
		return failf("decided on the states %v, the categories are in the states %v", to.evc.Last, byState)
	}
	kept := 0
	for s, members := range byState {
		action, in := to.evc.Last[s]
		if !in {
			return failf("decided on the states %v, the categories are in the states %v", to.evc.Last, byState)
		}
		for _, f := range members {
			key := strconv.FormatInt(f.Filename, 10)
			l := to.evc.Mem[key][len(mem[key]):]
			_, still := after[f.Filename]
			remembered := !still || action == qlearn.ActionNotDelete
			if action == qlearn.ActionNotDelete {
				kept++
			}
			if len(l) > 1 || (len(l) == 1) != remembered {
				return failf("file %d (held on: %t) of a category with action %d is remembered with %+v", f.Filename, still, action, l)
			}
			if !remembered {
				continue
			}
			lo, hi := math.Min(from.cnt.Cap, to.cnt.Cap), math.Max(from.cnt.Cap, to.cnt.Cap)
			if len(after) == 0 || len(before) > len(after) {
				lo = 0
			}
			if l[0].State != s || l[0].Action != action || l[0].Size != f.Size || l[0].Frequency != f.Frequency || l[0].Capacity < lo-1e-6 || l[0].Capacity > hi+1e-6 {
				return failf("file %+v in state %d with action %d, at an occupation of %v to %v, is remembered with %+v", f, s, action, lo, hi, l[0])
			}
		}
	}
	if got := len(to.evc.Mem["NotDelete"]) - len(mem["NotDelete"]); got != kept {
		return failf("%d files kept, %d remembered as such", kept, got)
	}
	r.Class("decision")
	return nil
}

func TestC41_Eviction(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C41", Name: "Eviction",
		Rule:     "histories of learning caches with an eviction agent: the states and remembered choices of every call, every reward, the table, the total and epsilon recomputed around each request; non-trivial: a reward was due",
		Quick:    350,
		Thorough: 8000,
		Gen: func(rt *rapid.T) HistCase {
			return rlHist(rt, func(rl *RLCfg) bool {
				return rl.Evict["catSize"].Type != "" && rl.Evict["catNumReq"].Type != "" && rl.Evict["catDeltaLastRequest"].Type != ""
			}, 4, 12, 40, 80)
		},
		Run: c41Run,
	})
}

// ----- C42: exploring again ----------------------------------------------------------

type mood struct {
	prev float64
	bad  int
}

func c42Run(c HistCase, r *Rec) error {
	rl := c.Cfg.RL
	moods := map[string]*mood{"ADD": {}, "EVC": {}}
	return watch40(c, r, "ae", func(st step40) error {
		p, b := st.spy.pre, st.spy.begun
		for _, w := range []struct {
			which      string
			has        bool
			pre, begun mind
			allowed    bool
		}{{"ADD", p.hasA, p.add, b.add, rl.AddUnleash}, {"EVC", p.hasE, p.evc, b.evc, rl.EvUnleash}} {
			if !w.has {
				continue
			}
			m := moods[w.which]
			want := w.pre.table()
			mem := w.pre.Mem
			if st.changed && w.pre.Epsilon <= 0.11 {
				switch {
				case m.prev == 0:
				case w.pre.QValue < m.prev:
					m.bad++
				default:
					m.bad = 0
				}
				m.prev = w.pre.QValue
			}
			if m.bad >= 3 {
				r.Class("falling")
			}
			if m.bad >= 8 {
				m.bad = 0
				if w.pre.QValue < 0 {
					mem = nil
				}
				if w.allowed {
					want.eps, want.step = 1, 0
					for w.pre.QValue >= 0 && want.eps > 0.5 {
						want.tick()
					}
					r.Class(fmt.Sprintf("again-%s-%t", w.which, w.pre.QValue < 0))
				} else {
					r.Class("not-allowed")
				}
				r.NonTrivial()
			}
			if err := want.check(w.begun, w.which+" before the decision"); err != nil {
				return err
			}
			if err := sameMem(w.begun.Mem, mem); err != nil {
				return err
			}
		}
		return nil
	})
}

func TestC42_Again(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C42", Name: "Again",
		Rule:     "histories of learning caches over many days, with the exploration near its minimum and rewards that fall or rise: epsilon, its schedule and the memory recomputed at the start of each request; non-trivial: eight falls in a row",
		Quick:    350,
		Thorough: 5000,
		Gen: func(rt *rapid.T) HistCase {
			c := rlHist(rt, func(*RLCfg) bool { return true }, 0, 3, 10, 25)
			rl := c.Cfg.RL
			low := []float64{0.1, 0.105, 0.05, 0.11}
			rl.AddEps = rapid.SampledFrom(low).Draw(rt, "lowAdd")
			rl.EvEps = rapid.SampledFrom(low).Draw(rt, "lowEv")
			if rl.AddDecay < 0.01 && rapid.IntRange(0, 5).Draw(rt, "slow") > 0 {
				rl.AddDecay, rl.EvDecay = 0.3, 0.3
			}
			// a steady load over many days: rounds over the same files
			n := rapid.IntRange(1, len(c.Sizes)).Draw(rt, "round")
			if rapid.IntRange(0, 2).Draw(rt, "credit") == 0 {
				// a total above zero to fall from
				c.Ops = append(c.Ops, Op{F: rapid.IntRange(0, len(c.Sizes)-1).Draw(rt, "creditF"), N: rapid.SampledFrom([]int{20, 60, 110}).Draw(rt, "creditN"), E: 50})
			}
			for k := rapid.IntRange(6, 40).Draw(rt, "days"); k > 0; k-- {
				for i := 0; i < n; i++ {
					op := Op{F: i, E: 50}
					if i == 0 {
						op.D = 86400
					}
					c.Ops = append(c.Ops, op)
				}
				if rapid.IntRange(0, 11).Draw(rt, "odd") == 0 {
					c.Ops = append(c.Ops, Op{F: rapid.IntRange(0, len(c.Sizes)-1).Draw(rt, "oddF"), D: rapid.SampledFrom([]int64{0, 0, 3600}).Draw(rt, "oddD")})
				}
			}
			return c
		},
		Run: c42Run,
	})
}
