//go:build go1.21

package zverif

import (
	"fmt"
	"reflect"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
)

// C09: cold starts.

func c09FilesGen(rt *rapid.T) HistCase {
	c := HistCase{Cfg: anyCfg(rt, append([]string{"aiRL"}, boundedTypes...))}
	c.Cfg.Redirect = false
	c.Sizes = sizesGen(rt, 3, 6, 10, 16)
	completeCfg(rt, &c.Cfg, len(c.Sizes), true)
	c.Full = c.Cfg.RL != nil && rapid.IntRange(0, 2).Draw(rt, "full") == 0
	c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 25, "clearStats", "clearFiles"), 6, 25, 60)
	c.Ops2 = sliceOf(rt, "ops2", reqGen(len(c.Sizes)), 1, 6, 25, 60)
	return c
}

func c09FilesRun(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		inst := makeCache(c.Cfg, dir)
		m := newModel(c.Cfg)
		modelled := isDeterministic(c.Cfg)
		now := day0
		step := func(at string, op Op) error {
			name, size := fname(op.F), c.Sizes[op.F]
			obs := request(inst, name, size, op, now)
			if !modelled {
				s := snapOf(inst)
				if !near(s.size(), inst.Size()) || inst.Size() > c.Cfg.Cap || inst.Size() < 0 {
					return failf("%s: occupied size %v, files %v", at, inst.Size(), s.size())
				}
				return nil
			}
			o := m.request(name, size, now, obs)
			if want := int64(len(o.victims) + len(o.wmVictims)); obs.Hit != o.hit || obs.Added != o.added || obs.Deleted != want {
				return failf("%s: hit=%v added=%v evicted=%d, expected hit=%v added=%v evicted=%d", at, obs.Hit, obs.Added, obs.Deleted, o.hit, o.added, want)
			}
			return nil
		}
		clear := func(at string) error {
			before, sb := counters(inst), snapOf(inst)
			va, err := agentValues(sb)
			if err != nil {
				return err
			}
			inst.ClearFiles()
			m.clearFiles()
			after, sa := counters(inst), snapOf(inst)
			if len(sa.Files) != 0 || inst.Size() != 0 || inst.Capacity() != 0 {
				return failf("%s: %d files, size %v, occupancy %v after clearing the files", at, len(sa.Files), inst.Size(), inst.Capacity())
			}
			for f := range c.Sizes {
				if inst.Check(fname(f)) {
					return failf("%s: file %d still held after clearing the files", at, fname(f))
				}
			}
			before.Size, before.Cap = 0, 0
			if before.str() != after.str() {
				return failf("%s: clearing the files changed the counters from %s to %s", at, before.str(), after.str())
			}
			// how long ago a file was requested is not part of the kept history
			for _, s := range []Snap{sb, sa} {
				for n, st := range s.Stats {
					st.Recency, st.DeltaLastRequest = 0, 0
					s.Stats[n] = st
				}
			}
			if err := sameStats(sb.Stats, sa.Stats); err != nil {
				return failf("%s: clearing the files changed the statistics: %v", at, err)
			}
			vb, err := agentValues(sa)
			if err != nil {
				return err
			}
			if !reflect.DeepEqual(va, vb) {
				return failf("%s: clearing the files changed what the agents learned", at)
			}
			if len(sb.Files) > 0 {
				r.Class("not-empty")
			}
			return nil
		}
		for i, op := range c.Ops {
			now += op.D
			at := fmt.Sprintf("op %d", i)
			switch op.K {
			case "clearStats":
				inst.ClearStats()
				m.clearStats()
			case "clearFiles":
				if err := clear(at); err != nil {
					return err
				}
			default:
				if err := step(at, op); err != nil {
					if !r.Is("not-empty") {
						// nothing was cleared yet: for other properties to say
						r.Class("left-the-model")
						return nil
					}
					return err
				}
			}
		}
		if !c.Full || len(c.Ops)%2 == 0 {
			if err := clear("end of the first part"); err != nil {
				return err
			}
		} else if len(snapOf(inst).Files) > 0 {
			r.Class("not-empty")
		}
		if c.Full {
			// a learning cache cleared completely keeps what its agents learned
			va, err := agentValues(snapOf(inst))
			if err != nil {
				return err
			}
			inst.Clear()
			s := snapOf(inst)
			vb, err := agentValues(s)
			if err != nil {
				return err
			}
			if !reflect.DeepEqual(va, vb) {
				return failf("clearing the cache completely changed what the agents learned")
			}
			if len(s.Files) != 0 || len(s.Stats) != 0 || inst.Size() != 0 || inst.Capacity() != 0 {
				return failf("%d files, %d statistics, size %v after clearing the cache completely", len(s.Files), len(s.Stats), inst.Size())
			}
			r.Class("learning-cleared")
		}
		if c.Cfg.RL != nil && len(c.Cfg.RL.Evict) > 0 {
			inst.ClearStats()
			// one request: only its own category can exist
			op := c.Ops2[0]
			now += op.D
			request(inst, fname(op.F), c.Sizes[op.F], op, now)
			var mean int
			var rest string
			if n, _ := fmt.Sscanf(inst.ExtraOutput("evictionCategoryStats"), "%d,%s", &mean, &rest); n == 2 && mean > 1 {
				return failf("%d file categories after clearing the files and one request", mean)
			}
			r.Class("categories")
		}
		evicted := false
		for i, op := range c.Ops2 {
			now += op.D
			del := inst.NumDeleted()
			if err := step(fmt.Sprintf("request %d after clearing the files", i), op); err != nil {
				return err
			}
			evicted = evicted || inst.NumDeleted() > del
		}
		if modelled {
			if x, y := snapOf(inst).names(), m.heldNames(); !slices.Equal(x, y) {
				return failf("end: files %v, expected %v", x, y)
			}
		}
		r.Class(c.Cfg.Type)
		if evicted {
			r.Class("evictions-afterwards")
		}
		if r.Is("not-empty") && len(c.Ops2) > 3 {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC09_ClearFiles(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C09", Name: "ClearFiles",
		Rule:     "random cache and history with file clearings, then a further trace checked against the reference model emptied at the clearing (size invariants for random and learning caches); non-trivial: files were held when cleared and more than three requests follow",
		Quick:    800,
		Thorough: 15000,
		Gen:      c09FilesGen,
		Run:      c09FilesRun,
	})
}

func c09ClearRun(c HistCase, r *Rec) error {
	return withDir(c.Cfg, func(dir string) error {
		used, fresh := makeCache(c.Cfg, dir), makeCache(c.Cfg, dir)
		now := day0
		for _, op := range c.Ops {
			now += op.D
			if op.K != "" {
				applyOther(used, op)
				continue
			}
			request(used, fname(op.F), c.Sizes[op.F], op, now)
		}
		held := len(snapOf(used).Files)
		used.Clear()
		compare := func(at string) error {
			if x, y := counters(used).str(), counters(fresh).str(); x != y {
				return failf("%s: figures of the cleared cache %s, of a fresh one %s", at, x, y)
			}
			x, y := snapOf(used), snapOf(fresh)
			if !slices.Equal(x.order(), y.order()) {
				return failf("%s: the cleared cache holds %v, a fresh one %v", at, x.order(), y.order())
			}
			if err := sameStats(y.Stats, x.Stats); err != nil {
				return failf("%s: statistics of a fresh and of the cleared cache: %v", at, err)
			}
			if x, y := used.ExtraStats(), fresh.ExtraStats(); x != y {
				return failf("%s: extra figures of the cleared cache %q, of a fresh one %q", at, x, y)
			}
			return nil
		}
		if err := compare("just after clearing"); err != nil {
			return err
		}
		now += 3 * 86400
		evicted := 0
		for i, op := range c.Ops2 {
			now += op.D
			at := fmt.Sprintf("op %d after clearing", i)
			if op.K == "report" {
				if x, y := cache.GetTotDeletedFileMiss(used), cache.GetTotDeletedFileMiss(fresh); x != y {
					return failf("%s: cleared cache reports %d misses after delete, fresh one %d", at, x, y)
				}
				continue
			}
			if op.K != "" {
				applyOther(used, op)
				applyOther(fresh, op)
			} else {
				x := request(used, fname(op.F), c.Sizes[op.F], op, now)
				y := request(fresh, fname(op.F), c.Sizes[op.F], op, now)
				x.Stats, y.Stats = nil, nil
				if x != y {
					return failf("%s: cleared cache %+v, fresh one %+v", at, x, y)
				}
				evicted += int(x.Deleted)
			}
			if err := compare(at); err != nil {
				return err
			}
		}
		r.Class(c.Cfg.Type)
		if evicted > 0 {
			r.Class("evictions-afterwards")
		}
		if held > 0 && len(c.Ops2) > 3 {
			r.NonTrivial()
		}
		return nil
	})
}

func TestC09_Clear(t *testing.T) {
	types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "weightFunLRU", "weightFunLRU", "lruDatasetVerifier"}
	runSpec(t, Spec[HistCase]{
		Prop: "C09", Name: "Clear",
		Rule:     "a used and completely cleared cache against a fresh one on the same further history, everything observable compared after each step; non-trivial: files were held when cleared and more than three steps follow",
		Quick:    900,
		Thorough: 15000,
		Gen: func(rt *rapid.T) HistCase {
			c := HistCase{Cfg: anyCfg(rt, types)}
			c.Sizes = sizesGen(rt, 3, 6, 10, 16)
			completeCfg(rt, &c.Cfg, len(c.Sizes), true)
			c.Ops = sliceOf(rt, "ops", opGen(len(c.Sizes), 25, "clearStats", "clearFiles", "free", "clear"), 6, 25, 60)
			c.Ops2 = sliceOf(rt, "ops2", opGen(len(c.Sizes), 12, "clearStats", "free", "report", "report"), 1, 6, 25, 60)
			return c
		},
		Run: c09ClearRun,
	})
}
