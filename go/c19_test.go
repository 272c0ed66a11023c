//go:build go1.21

package zverif

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// C19: the books and triggers of the learning caches.

// rlReport is the parsed daily report.
type rlReport struct {
	EpsAdd, EpsEv, ValAdd, ValEv string
	Calls, Forced                int64
	CatMean, CatStd              string
	Store, NotStore              int64
	All, Half, Quarter, One, Not int64
}

func splitN(s string, n int) ([]string, error) {
	parts := strings.Split(s, ",")
	if len(parts) != n {
		return nil, failf("a report of %d figures is %q", n, s)
	}
	return parts, nil
}

func rlReportOf(c cache.Cache) (rep rlReport, err error) {
	ints := func(s string, into ...*int64) error {
		parts, err := splitN(s, len(into))
		if err != nil {
			return err
		}
		for i, p := range parts {
			v, err := strconv.ParseInt(p, 10, 64)
			if err != nil {
				return failf("a count is reported as %q", p)
			}
			*into[i] = v
		}
		return nil
	}
	strs := func(s string, into ...*string) error {
		parts, err := splitN(s, len(into))
		if err != nil {
			return err
		}
		for i, p := range parts {
			*into[i] = p
		}
		return nil
	}
	for _, e := range []error{
		strs(c.ExtraOutput("epsilonStats"), &rep.EpsAdd, &rep.EpsEv),
		strs(c.ExtraOutput("valueFunctions"), &rep.ValAdd, &rep.ValEv),
		strs(c.ExtraOutput("evictionCategoryStats"), &rep.CatMean, &rep.CatStd),
		ints(c.ExtraOutput("evictionStats"), &rep.Calls, &rep.Forced),
		ints(c.ExtraOutput("actionStats"), &rep.Store, &rep.NotStore, &rep.All, &rep.Half, &rep.Quarter, &rep.One, &rep.Not),
	} {
		if e != nil {
			return rep, e
		}
	}
	return rep, nil
}

func (r rlReport) minus(o rlReport) rlReport {
	r.Calls -= o.Calls
	r.Forced -= o.Forced
	r.Store -= o.Store
	r.NotStore -= o.NotStore
	r.All -= o.All
	r.Half -= o.Half
	r.Quarter -= o.Quarter
	r.One -= o.One
	r.Not -= o.Not
	return r
}

func (r rlReport) evActions() int64 { return r.All + r.Half + r.Quarter + r.One + r.Not }

// spy19 looks at the cache just before a request is accounted.
type spy19 struct {
	cache.Cache
	called bool
	snap   Snap
	rep    rlReport
	cnt    Counters
	err    error
}

func (s *spy19) AfterRequest(req *cache.Request, st *files.Stats, hit bool, added bool) {
	s.called = true
	s.snap = snapOf(s.Cache)
	s.cnt = counters(s.Cache)
	s.rep, s.err = rlReportOf(s.Cache)
	s.Cache.AfterRequest(req, st, hit, added)
}

// catKey is the category of a file in an eviction map.
func catKey(m map[string]FeatObj, st files.Stats) string {
	key := ""
	for _, name := range []string{"catSize", "catNumReq", "catDeltaLastRequest"} {
		f, in := m[name]
		if !in {
			continue
		}
		v := st.Size
		switch name {
		case "catNumReq":
			v = float64(st.Frequency)
		case "catDeltaLastRequest":
			v = float64(st.Recency)
		}
		b := len(f.Buckets)
		for i, l := range f.Buckets {
			if v <= bucketNum(l) {
				b = i
				break
			}
		}
		key += fmt.Sprintf("%d/", b)
	}
	return key
}

func bucketNum(l any) float64 {
	switch v := l.(type) {
	case float64:
		return v
	case int64:
		return float64(v)
	case int:
		return float64(v)
	}
	panic(fmt.Sprintf("limit %v", l))
}

func categories(m map[string]FeatObj, held map[int64]files.Stats) map[string][]files.Stats {
	res := map[string][]files.Stats{}
	for _, st := range held {
		k := catKey(m, st)
		res[k] = append(res[k], st)
	}
	return res
}

// explainable tells whether one call on the categories of before, taking the
// counted actions, can leave after.
func explainable(m map[string]FeatObj, before, after map[int64]files.Stats, d rlReport) error {
	cats := categories(m, before)
	if d.evActions() != int64(len(cats)) {
		return failf("%d actions for %d categories", d.evActions(), len(cats))
	}
	for n := range after {
		if _, in := before[n]; !in {
			return failf("file %d appears in an eviction", n)
		}
	}
	keys := []string{}
	for k := range cats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// options[i] are the actions that explain category i
	const (
		not = iota
		one
		quarter
		half
		all
	)
	options := make([][]int, len(keys))
	for i, k := range keys {
		n, gone := len(cats[k]), 0
		goneOne := files.Stats{}
		oldest := int64(math.MaxInt64)
		for _, st := range cats[k] {
			if st.Recency < oldest {
				oldest = st.Recency
			}
			if _, in := after[st.Filename]; !in {
				gone++
				goneOne = st
			}
		}
		if gone == 0 {
			options[i] = append(options[i], not)
		}
		if gone == 1 && goneOne.Recency == oldest {
			options[i] = append(options[i], one)
		}
		if gone == max(1, n/4) {
			options[i] = append(options[i], quarter)
		}
		if gone == max(1, n/2) {
			options[i] = append(options[i], half)
		}
		if gone == n {
			options[i] = append(options[i], all)
		}
	}
	left := [5]int64{not: d.Not, one: d.One, quarter: d.Quarter, half: d.Half, all: d.All}
	// exact assignment with few kinds of option sets
	kinds := map[string]int64{}
	for _, o := range options {
		kinds[fmt.Sprint(o)]++
	}
	names := []string{}
	for k := range kinds {
		names = append(names, k)
	}
	sort.Slice(names, func(i, j int) bool {
		return len(names[i]) < len(names[j]) || len(names[i]) == len(names[j]) && names[i] < names[j]
	})
	var assign func(i int, todo int64, first int) bool
	assign = func(i int, todo int64, first int) bool {
		if todo == 0 {
			i++
			if i >= len(names) {
				return true
			}
			todo, first = kinds[names[i]], 0
		}
		for a := first; a < 5; a++ {
			if left[a] > 0 && strings.Contains(names[i], strconv.Itoa(a)) {
				for take := min(left[a], todo); take > 0; take-- {
					left[a] -= take
					if assign(i, todo-take, a+1) {
						left[a] += take
						return true
					}
					left[a] += take
				}
			}
		}
		return false
	}
	if len(names) > 0 && !assign(-1, 0, 0) {
		return failf("no assignment of the actions (all %d, half %d, quarter %d, one %d, none %d) to the categories explains the evicted files: categories %v", d.All, d.Half, d.Quarter, d.One, d.Not, options)
	}
	return nil
}

func c19Run(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		rl := c.Cfg.RL
		hasAdd, hasEv := len(rl.Add) > 0, len(rl.Evict) > 0
		now := day0
		countdown := rl.K
		numCats := []int{}
		rep, err := rlReportOf(inst)
		if err != nil {
			return err
		}
		snap, cnt := snapOf(inst), counters(inst)
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d %+v", i, op)
			before, beforeRep, beforeCnt := snap, rep, cnt
			s := &spy19{Cache: inst}
			size := 0.0
			added, redirected := false, false
			if op.K == "" {
				size = c.Sizes[op.F]
				added, redirected = cache.GetFile(s, fname(op.F), size, op.P, op.E, now, op.S, op.U, int64(0))
				if s.err != nil {
					return s.err
				}
			} else {
				applyOther(inst, op)
			}
			if rep, err = rlReportOf(inst); err != nil {
				return fmt.Errorf("%s: %w", at, err)
			}
			snap, cnt = snapOf(inst), counters(inst)
			if !near(cnt.Size, snap.size()) {
				return failf("%s: occupied size %v, files of %v held", at, cnt.Size, snap.size())
			}
			switch {
			case op.K == "clearStats":
				numCats = numCats[:0]
				beforeRep.Calls, beforeRep.Forced = 0, 0
				want := rlReport{}
				dayEnd := hasEv && rl.EvType == "onDayEnd"
				if dayEnd {
					want.Calls = 1
				}
				if rep.Calls != want.Calls || rep.Forced != 0 || rep.Store != 0 || rep.NotStore != 0 {
					return failf("%s: after the end of a day %d calls (%d forced), %d stores, %d refusals; should be %d calls and nothing else", at, rep.Calls, rep.Forced, rep.Store, rep.NotStore, want.Calls)
				}
				if err := c19Phase(rl, before.Held, snap.Held, rep, dayEnd); err != nil {
					return fmt.Errorf("%s: %w", at, err)
				}
				if dayEnd && len(before.Held) > 0 {
					r.Class("day-end-call")
				}
				gone := missing(before.Held, snap.Held)
				if cnt.Deleted != int64(len(gone)) || !near(cnt.DelData, sizeOf(before.Held, gone)) {
					return failf("%s: %d files of %v evicted at the end of the day, counted %d of %v", at, len(gone), sizeOf(before.Held, gone), cnt.Deleted, cnt.DelData)
				}
			case op.K != "":
				d := rep.minus(beforeRep)
				if d.Calls != 0 || d.Forced != 0 || d.evActions() != 0 || d.Store != 0 || d.NotStore != 0 {
					return failf("%s: agents acted: %+v", at, d)
				}
			case redirected:
				d := rep.minus(beforeRep)
				if s.called || d.Calls != 0 || d.Forced != 0 || d.evActions() != 0 || d.Store != 0 || d.NotStore != 0 {
					return failf("%s: agents acted on a redirected request: %+v", at, d)
				}
				r.Class("redirected")
			default:
				hit := cnt.Hits > beforeCnt.Hits
				up := s.rep.minus(beforeRep) // while the request was decided
				af := rep.minus(s.rep)       // while it was accounted
				// --- decision
				wantAdd := int64(0)
				if hasAdd && !hit {
					wantAdd = 1
				}
				if up.Store+up.NotStore != wantAdd || up.Store < 0 || up.NotStore < 0 || af.Store != 0 || af.NotStore != 0 {
					return failf("%s: %d store and %d not-store actions counted (hit %t)", at, up.Store+af.Store, up.NotStore+af.NotStore, hit)
				}
				try := !hit && (!hasAdd || up.Store == 1)
				full := beforeCnt.Size+size > beforeCnt.Max
				mid := map[int64]files.Stats{}
				for n, st := range s.snap.Held {
					if n != fname(op.F) || hit {
						mid[n] = st
					}
				}
				minCalls, maxCalls, forced := int64(0), int64(0), int64(0)
				if try && full && hasEv {
					minCalls, maxCalls = 1, 1
					if hasAdd {
						maxCalls = 2
					}
					if rl.EvType != "onFree" {
						forced = 1
						r.Class("forced-call")
					} else {
						r.Class("on-free-call")
					}
				}
				if up.Calls < minCalls || up.Calls > maxCalls || up.Forced != forced {
					return failf("%s: eviction agent called %d times (%d forced) for a request that fits: %t", at, up.Calls, up.Forced, !full)
				}
				held := before.Held
				if hit {
					// the request itself moves the file to another category
					held = s.snap.Held
				}
				switch {
				case up.Calls == 1:
					if err := explainable(rl.Evict, held, mid, up); err != nil {
						return fmt.Errorf("%s: %w", at, err)
					}
				case up.Calls == 2:
					c0, c1 := int64(len(categories(rl.Evict, held))), int64(len(categories(rl.Evict, mid)))
					if n := up.evActions(); n < c0+c1 || n > 2*c0 {
						return failf("%s: %d actions in two calls on %d and then at least %d categories", at, n, c0, c1)
					}
				case up.evActions() != 0:
					return failf("%s: %d eviction actions without a call", at, up.evActions())
				case hasEv || !(try && full):
					if len(missing(held, mid)) > 0 {
						return failf("%s: files %v evicted without a call", at, missing(held, mid))
					}
				}
				_, in := s.snap.Held[fname(op.F)]
				if !hit && in != added {
					return failf("%s: file admitted: %t, held after the decision: %t", at, added, in)
				}
				if added && !try {
					return failf("%s: file admitted without a store action (hit %t)", at, hit)
				}
				midSize := 0.0
				for _, st := range mid {
					midSize += st.Size
				}
				if try && added != (midSize+size <= beforeCnt.Max) {
					return failf("%s: file of %v admitted: %t, with %v of %v occupied", at, size, added, midSize, beforeCnt.Max)
				}
				// --- accounting
				wantCall := int64(0)
				if hasEv && rl.EvType == "onK" {
					if countdown <= 0 {
						wantCall = 1
						countdown = rl.K
						r.Class("on-k-call")
					} else {
						countdown--
					}
				}
				if af.Calls != wantCall || af.Forced != 0 {
					return failf("%s: eviction agent called %d times (%d forced) after the request, should be %d", at, af.Calls, af.Forced, wantCall)
				}
				if rl.Type == "SCDL2" && hasEv {
					numCats = append(numCats, len(categories(rl.Evict, s.snap.Held)))
					if err := c19Phase(rl, s.snap.Held, snap.Held, af, wantCall == 1); err != nil {
						return fmt.Errorf("%s: %w", at, err)
					}
				}
				// --- books
				gone := missing(held, mid)
				gone = append(gone, missing(s.snap.Held, snap.Held)...)
				sum := 0.0
				for _, n := range gone {
					st, in := s.snap.Held[n]
					if !in {
						st = before.Held[n]
					}
					sum += st.Size
				}
				if cnt.Deleted-beforeCnt.Deleted != int64(len(gone)) || !near(cnt.DelData-beforeCnt.DelData, sum) {
					return failf("%s: %d files of %v evicted, counted %d of %v", at, len(gone), sum, cnt.Deleted-beforeCnt.Deleted, cnt.DelData-beforeCnt.DelData)
				}
				wantN, wantW := int64(0), 0.0
				if added {
					wantN, wantW = 1, size
				}
				if cnt.Added-beforeCnt.Added != wantN || !near(cnt.Written-beforeCnt.Written, wantW) {
					return failf("%s: admitted %t, counted %d files of %v", at, added, cnt.Added-beforeCnt.Added, cnt.Written-beforeCnt.Written)
				}
				if up.Calls+af.Calls > 0 && len(before.Held) > 1 {
					r.NonTrivial()
				}
				if up.NotStore > 0 {
					r.Class("not-store")
				}
				if up.All+up.Half+up.Quarter+af.All+af.Half+af.Quarter > 0 {
					r.Class("several-deleted")
				}
			}
			// --- report
			if hasEv {
				mean, std := catFigures(numCats)
				if rep.CatMean != mean || rep.CatStd != std {
					return failf("%s: category figures %s,%s, should be %s,%s (%v)", at, rep.CatMean, rep.CatStd, mean, std, numCats)
				}
			} else if rep.CatMean != "-1" || rep.CatStd != "-1.00" {
				return failf("%s: category figures %s,%s without an eviction agent", at, rep.CatMean, rep.CatStd)
			}
			wantEps, wantVal := [2]string{"0.000000", "0.000000"}, [2]string{"0.00", "0.00"}
			for k, name := range []string{"ADDAGENT", "EVCAGENT"} {
				data, in := snap.Others[name]
				if in != [2]bool{hasAdd, hasEv}[k] {
					return failf("%s: the dump has a %s: %t", at, name, in)
				}
				if !in {
					continue
				}
				var ag struct{ Epsilon, QValue float64 }
				if err := json.Unmarshal([]byte(data), &ag); err != nil {
					return err
				}
				wantEps[k], wantVal[k] = fmt.Sprintf("%0.6f", ag.Epsilon), fmt.Sprintf("%0.2f", ag.QValue)
			}
			if [2]string{rep.EpsAdd, rep.EpsEv} != wantEps || [2]string{rep.ValAdd, rep.ValEv} != wantVal {
				return failf("%s: reported epsilon %s,%s and rewards %s,%s, the agents have %v and %v", at, rep.EpsAdd, rep.EpsEv, rep.ValAdd, rep.ValEv, wantEps, wantVal)
			}
		}
		r.Class(rl.Type)
		if hasAdd {
			r.Class("addition-agent")
		}
		if hasEv {
			r.Class("eviction-" + rl.EvType)
		}
		if hasAdd && cnt.Req > 5 {
			r.NonTrivial()
		}
		return nil
	})
}

// c19Phase checks a phase in which at most one call may have been made.
func c19Phase(rl *RLCfg, before, after map[int64]files.Stats, d rlReport, called bool) error {
	if called {
		return explainable(rl.Evict, before, after, d)
	}
	if d.evActions() != 0 {
		return failf("%d eviction actions without a call", d.evActions())
	}
	if gone := missing(before, after); len(gone) > 0 {
		return failf("files %v evicted without a call", gone)
	}
	return nil
}

func sizeOf(held map[int64]files.Stats, names []int64) float64 {
	sum := 0.0
	for _, n := range names {
		sum += held[n].Size
	}
	return sum
}

// catFigures are the whole mean and the sample deviation around it.
func catFigures(nums []int) (string, string) {
	if len(nums) == 0 {
		return "0", "0.00"
	}
	sum := 0
	for _, n := range nums {
		sum += n
	}
	mean := sum / len(nums)
	sq := 0
	for _, n := range nums {
		sq += (n - mean) * (n - mean)
	}
	return strconv.Itoa(mean), fmt.Sprintf("%0.2f", math.Sqrt(float64(sq)/float64(len(nums)-1)))
}

func TestC19_Books(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C19", Name: "Books",
		Rule:     "histories of learning caches (addition and/or eviction agent, every trigger) with resets: calls, forced calls, actions per category, evicted files, admissions and daily report recomputed around each request; non-trivial: a call with several files held, or decisions of an addition agent",
		Quick:    600,
		Thorough: 9000,
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: anyCfg(rt, []string{"aiRL"})}
			c.Sizes = sizesGen(rt, 3, 6, 12, 24, 40)
			completeCfg(rt, &c.Cfg, len(c.Sizes), false)
			if c.Cfg.RL.Evict == nil {
				c.Cfg.WM = false // a watermark release is not the agents' doing
			}
			c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 12, "clearStats", "clearStats", "clearFiles"), 1, 6, 25, 60, 100)
			return c
		},
		Run: c19Run,
	})
}
