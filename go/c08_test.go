//go:build go1.21

package zverif

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"slices"
	"testing"
	"time"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// C08: dump, reload, compare and continue on both.

type c08Case struct {
	HistCase
	ToFile  bool   `json:"toFile"`
	NoFiles bool   `json:"noFiles"`
	Reloads int    `json:"reloads"`
	ReSeed  int64  `json:"reSeed"`
	DumpAs  string `json:"dumpAs,omitempty"`
}

func (c c08Case) expanded(r *Rec) any {
	c.HistCase = c.HistCase.expanded(r).(HistCase)
	return c
}

var deterministicTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall", "weightFunLRU", "lruDatasetVerifier", "aiNN"}

func isDeterministic(c Cfg) bool { return slices.Contains(deterministicTypes, c.Type) }

func c08Gen(rt *rapid.T) c08Case {
	types := append([]string{"lfu", "weightFunLRU", "aiRL", "random", "random_lru", "aiRL"}, deterministicTypes...)
	c := c08Case{HistCase: HistCase{Cfg: quietCfg(rt, types)}}
	if rapid.IntRange(0, 2).Draw(rt, "hasWM") == 0 {
		wmGen(rt, &c.Cfg)
	}
	if rapid.Bool().Draw(rt, "hasPrune") {
		// pruned before the dump, not after
		c.Cfg.MaxDiff = rapid.SampledFrom([]float64{0.5, 1, 2}).Draw(rt, "maxDiff")
		c.Cfg.Step = rapid.SampledFrom([]float64{2, 3, 7}).Draw(rt, "step")
	}
	c.Sizes = sizesGen(rt, 3, 6, 10, 16)
	completeCfg(rt, &c.Cfg, len(c.Sizes), true)
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 25, "clearStats"), 0, 6, 25, 60, 120)
	c.Ops2 = sliceOf(rt, "ops2", reqGen(len(c.Sizes)), 1, 6, 25, 60)
	c.ToFile = rapid.Bool().Draw(rt, "toFile")
	c.NoFiles = rapid.IntRange(0, 9).Draw(rt, "noFiles") == 0
	c.Reloads = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "reloads")
	if c.ToFile && c.Cfg.RL != nil && len(c.Cfg.RL.Add) > 0 && rapid.IntRange(0, 11).Draw(rt, "wide") == 11 {
		// a table whose record in the dump is long
		c.Cfg.RL.Add = map[string]FeatObj{
			"size":   {Type: "float", Buckets: upTo(120), OpenRight: true},
			"numReq": {Type: "int", Buckets: upTo(60), OpenRight: true},
		}
		c.Ops2 = c.Ops2[:min(len(c.Ops2), 4)]
	}
	return c
}

// upTo lists the numbers from 1 to n.
func upTo(n int) []any {
	res := []any{}
	for i := 1; i <= n; i++ {
		res = append(res, float64(i))
	}
	return res
}

// sameStats compares two sets of statistics; times by instant.
func sameStats(a, b map[int64]files.Stats) error {
	if m := missing(a, b); len(m) > 0 {
		return failf("files %v are gone", m)
	}
	if m := missing(b, a); len(m) > 0 {
		return failf("files %v are new", m)
	}
	for n, x := range a {
		y := b[n]
		if !x.StatInsertTime.Equal(y.StatInsertTime) || !x.StatLastUpdateTime.Equal(y.StatLastUpdateTime) || !slices.EqualFunc(x.RequestedTimes, y.RequestedTimes, time.Time.Equal) {
			return failf("file %d: times differ: %+v and %+v", n, x, y)
		}
		x.StatInsertTime, x.StatLastUpdateTime, x.RequestedTimes = y.StatInsertTime, y.StatLastUpdateTime, y.RequestedTimes
		if !reflect.DeepEqual(x, y) {
			return failf("file %d: %+v and %+v", n, x, y)
		}
	}
	return nil
}

func agentValues(s Snap) (map[string]any, error) {
	res := map[string]any{}
	for _, k := range []string{"ADDAGENT", "EVCAGENT"} {
		data, in := s.Others[k]
		if !in {
			continue
		}
		var v struct {
			QTable struct {
				States      [][]int     `json:"states"`
				Actions     [][]float64 `json:"actions"`
				ActionTypes []int       `json:"actionTypes"`
			} `json:"qtable"`
		}
		if err := json.Unmarshal([]byte(data), &v); err != nil {
			return nil, err
		}
		res[k] = v
	}
	return res, nil
}

func c08Reload(c c08Case, from cache.Cache, dir string, files bool) cache.Cache {
	to := makeCache(c.Cfg, dir)
	var records [][]byte
	if c.ToFile {
		path := filepath.Join(dir, "dump.json.gz")
		from.Dump(path, files)
		records = to.Load(path)
	} else {
		records = from.Dumps(files)
	}
	if c.Cfg.Type == "aiRL" {
		to.Loads(records, c.Cfg.RL.AddEps, c.Cfg.RL.AddDecay)
	} else {
		to.Loads(records)
	}
	return to
}

func c08Run(c c08Case, r *Rec) error {
	dir, clean := scratch()
	defer clean()
	a := makeCache(c.Cfg, dir)
	now := day0
	lastPrune, prunable := int64(-1), c.Cfg.Step < 1000
	live := map[int64]*files.Stats{} // the statistics themselves, as returned to the requests
	for _, op := range c.Ops {
		now += op.D
		if op.K != "" {
			applyOther(a, op)
			continue
		}
		if st := request(a, fname(op.F), c.Sizes[op.F], op, now).Stats; st != nil {
			live[st.Filename] = st
		}
		if lastPrune < 0 || float64(now-lastPrune)/86400 >= c.Cfg.Step {
			lastPrune = now
		}
	}
	if c.NoFiles {
		s := snapNoFiles(a)
		if len(s.Files) != 0 || len(s.Stats) != 0 {
			return failf("a dump without files and statistics has %d files and %d statistics", len(s.Files), len(s.Stats))
		}
		b := c08Reload(c, a, dir, false)
		if n := len(snapOf(b).Files); n != 0 || b.Size() != 0 {
			return failf("reloading a dump without files gives %d files and size %v", n, b.Size())
		}
		r.Class("without-files")
		return nil
	}
	sa := snapOf(a)
	for n, dumped := range sa.Stats {
		if st, in := live[n]; in {
			if err := sameStats(map[int64]files.Stats{n: *st}, map[int64]files.Stats{n: dumped}); err != nil {
				return failf("dumped statistics: %v", err)
			}
			r.Class("live")
		}
	}
	b := a
	for k := 0; k < c.Reloads; k++ {
		b = c08Reload(c, b, dir, true)
		sb := snapOf(b)
		what := fmt.Sprintf("reload %d", k+1)
		if !near(a.Size(), b.Size()) {
			return failf("%s: occupied size %v, dumped with %v", what, b.Size(), a.Size())
		}
		if err := sameStats(sa.Held, sb.Held); err != nil {
			return failf("%s: files held: %v", what, err)
		}
		if err := sameStats(sa.Stats, sb.Stats); err != nil {
			return failf("%s: statistics: %v", what, err)
		}
		for f := range c.Sizes {
			_, in := sa.Held[fname(f)]
			if b.Check(fname(f)) != in {
				return failf("%s: file %d held %v, dumped %v", what, fname(f), !in, in)
			}
		}
		va, err := agentValues(sa)
		if err != nil {
			return err
		}
		vb, err := agentValues(sb)
		if err != nil {
			return err
		}
		if !reflect.DeepEqual(va, vb) {
			return failf("%s: the agents' tables changed from %v to %v", what, va, vb)
		}
	}
	if len(sa.Files) > 0 {
		r.Class("not-empty")
	}
	// continue on both
	compared, evicted := 0, 0
	if !isDeterministic(c.Cfg) {
		for i, op := range c.Ops2 {
			now += op.D
			request(b, fname(op.F), c.Sizes[op.F], op, now)
			if s := snapOf(b); !near(s.size(), b.Size()) || b.Size() < 0 || b.Size() > c.Cfg.Cap {
				return failf("request %d after the reload: occupied size %v, files %v, capacity %v", i, b.Size(), s.size(), c.Cfg.Cap)
			}
			compared++
		}
	} else {
		for i, op := range c.Ops2 {
			now += op.D
			if prunable && lastPrune >= 0 && float64(now-lastPrune)/86400 >= c.Cfg.Step-0.5 {
				break // the statistics are about to be pruned
			}
			oa := request(a, fname(op.F), c.Sizes[op.F], op, now)
			ob := request(b, fname(op.F), c.Sizes[op.F], op, now)
			if oa.Hit != ob.Hit || oa.Added != ob.Added || oa.Deleted != ob.Deleted {
				return failf("request %d after the reload: original hit=%v added=%v evicted=%d, reloaded hit=%v added=%v evicted=%d", i, oa.Hit, oa.Added, oa.Deleted, ob.Hit, ob.Added, ob.Deleted)
			}
			if oa.Stats != nil && ob.Stats != nil {
				n := oa.Stats.Filename
				x, y := *oa.Stats, *ob.Stats
				// the tick is not dumped: a reloaded cache counts from 0 again
				x.Recency, x.DeltaLastRequest = y.Recency, y.DeltaLastRequest
				if err := sameStats(map[int64]files.Stats{n: x}, map[int64]files.Stats{n: y}); err != nil {
					return failf("request %d after the reload: statistics of the original and the reloaded cache: %v", i, err)
				}
			}
			x, y := snapOf(a).order(), snapOf(b).order()
			if !slices.Equal(x, y) {
				return failf("request %d after the reload: original holds %v, reloaded %v", i, x, y)
			}
			compared++
			evicted += int(oa.Deleted)
		}
	}
	r.Class(c.Cfg.Type)
	if c.Cfg.RL != nil && len(c.Cfg.RL.Add["size"].Buckets) > 100 {
		r.Class("wide-table")
	}
	if c.ToFile {
		r.Class("file")
	} else {
		r.Class("memory")
	}
	if evicted > 0 {
		r.Class("evictions-after-reload")
	}
	if len(sa.Files) > 0 && compared > 3 {
		r.NonTrivial()
	}
	return nil
}

func snapNoFiles(c cache.Cache) Snap { return parseDump(c.Dumps(false)) }

func TestC08_Reload(t *testing.T) {
	runSpec(t, Spec[c08Case]{
		Prop: "C08", Name: "Reload",
		Rule:     "random cache with a history, dumped to memory or a file and reloaded one to three times; files, sizes, statistics and agent tables compared, then the same trace on the original and the reloaded cache (types without random choices) or further requests with size invariants; non-trivial: files were dumped and more than three requests followed",
		Quick:    1000,
		Thorough: 13000,
		Gen:      c08Gen,
		Run:      c08Run,
	})
}
