//go:build go1.21

package zverif

import (
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache/files"
	"simulator/v2/cache/queue"
)

// C01: the replacement queues against a sorted-list model.

type c01Op struct {
	K string  `json:"k"` // ins upd rem remw amt
	I int     `json:"i"`
	N int     `json:"n,omitempty"`
	D int64   `json:"d,omitempty"` // change of the frequency before an update
	S float64 `json:"s,omitempty"` // size / weight choice
}

type c01Case struct {
	Kind string  `json:"kind"`
	Ops  []c01Op `json:"ops"`
	Pool int     `json:"pool,omitempty"` // number of files there are, 41 when not given
}

type c01Entry struct {
	st   *files.Stats
	key  float64
	seq  int
	name int64
}

func c01Queue(kind string) queue.Queue {
	switch kind {
	case "lru":
		return &queue.LRU{}
	case "lfu":
		return &queue.LFU{}
	case "sizeBig":
		return &queue.SizeBig{}
	case "sizeSmall":
		return &queue.SizeSmall{}
	case "weight":
		return &queue.Weighted{}
	}
	return &queue.QueueNone{}
}

func c01Key(kind string, st *files.Stats) float64 {
	switch kind {
	case "lfu":
		return float64(st.Frequency)
	case "sizeBig":
		return -st.Size
	case "sizeSmall":
		return st.Size
	case "weight":
		return st.Weight
	}
	return 0
}

func c01Gen(rt *rapid.T) c01Case {
	kinds := []string{"lru", "lfu", "sizeBig", "sizeSmall", "weight", "none"}
	c := c01Case{Kind: rapid.SampledFrom(kinds).Draw(rt, "kind")}
	op := rapid.Custom(func(rt *rapid.T) c01Op {
		return c01Op{
			K: rapid.SampledFrom([]string{"ins", "ins", "ins", "upd", "upd", "upd", "rem", "remw", "amt", "amtw"}).Draw(rt, "k"),
			I: rapid.IntRange(0, 40).Draw(rt, "i"),
			N: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 9, 30}).Draw(rt, "n"),
			D: rapid.SampledFrom([]int64{0, 1, 1, 1, 2, 5}).Draw(rt, "d"),
			S: rapid.SampledFrom([]float64{0, 0.25, 0.5, 1, 1, 2, 2, 3.75, 10, 1000.5}).Draw(rt, "s"),
		}
	})
	c.Ops = sliceOf(rt, "ops", op, 0, 1, 4, 12, 40, 120)
	if rapid.IntRange(0, 11).Draw(rt, "large") == 11 && len(c.Ops) > 0 {
		// many files: runs of insertions and updates, with values of their own or shared
		c.Pool = rapid.SampledFrom([]int{90, 200, 450}).Draw(rt, "pool")
		for k := rapid.IntRange(1, 6).Draw(rt, "runs"); k > 0; k-- {
			c.Ops[rapid.IntRange(0, len(c.Ops)-1).Draw(rt, "at")] = c01Op{
				K: rapid.SampledFrom([]string{"run", "run", "runu", "remw", "amtw"}).Draw(rt, "runKind"),
				I: rapid.IntRange(0, 40).Draw(rt, "i"),
				N: rapid.SampledFrom([]int{20, 70, 150, 300}).Draw(rt, "runN"),
				D: rapid.SampledFrom([]int64{0, 0, 1, 3}).Draw(rt, "runD"),
				S: rapid.SampledFrom([]float64{0, 0.25, 1, 2.5}).Draw(rt, "runS"),
			}
		}
	}
	return c
}

func c01Run(c c01Case, r *Rec) error {
	q := c01Queue(c.Kind)
	queue.Init(q)
	pool := 41
	if c.Pool > 0 {
		pool = c.Pool
	}
	all := make([]*files.Stats, pool)
	for i := range all {
		// names far apart, some negative, like the hashed names of a trace
		all[i] = &files.Stats{Filename: int64(i*i*7919-3) * 1009, Size: 1, Frequency: 1}
	}
	var held []*c01Entry
	seq := 0
	ordered := c.Kind != "none"
	sorted := func() []*c01Entry {
		res := append([]*c01Entry(nil), held...)
		sort.SliceStable(res, func(i, j int) bool {
			if res[i].key != res[j].key {
				return res[i].key < res[j].key
			}
			return res[i].seq < res[j].seq
		})
		return res
	}
	in := map[int64]bool{}
	index := func(name int64) int {
		if in[name] {
			for i, e := range held {
				if e.name == name {
					return i
				}
			}
		}
		return -1
	}
	drop := func(name int64) {
		i := index(name)
		held = append(held[:i], held[i+1:]...)
		delete(in, name)
	}
	names := func(list []*files.Stats) []int64 {
		res := make([]int64, 0, len(list))
		for _, f := range list {
			res = append(res, f.Filename)
		}
		return res
	}
	prefix := func(amount float64) []*c01Entry {
		var sum float64
		res := sorted()
		for i, e := range res {
			sum += e.st.Size
			if sum >= amount {
				return res[:i+1]
			}
		}
		return res
	}
	moves := 0
	check := func(at string) error {
		want := sorted()
		if n := queue.Len(q); n != len(want) {
			return failf("%s: queue length %d, want %d", at, n, len(want))
		}
		for _, f := range all {
			isHeld := in[f.Filename]
			if q.Check(f.Filename) != isHeld || queue.Check(q, f.Filename) != isHeld {
				return failf("%s: membership of file %d is %v, want %v", at, f.Filename, !isHeld, isHeld)
			}
			if isHeld && queue.GetFileStats(q, f.Filename) != f {
				return failf("%s: the queue returns other statistics for file %d", at, f.Filename)
			}
		}
		worst := append([]*files.Stats(nil), queue.GetFromWorst(q)...)
		best := append([]*files.Stats(nil), queue.Get(q)...)
		if len(worst) != len(want) || len(best) != len(want) {
			return failf("%s: listings have %d and %d files, want %d", at, len(worst), len(best), len(want))
		}
		if ordered {
			for i, e := range want {
				if worst[i] != e.st {
					return failf("%s: worst-first listing %v, want file %d at %d", at, names(worst), e.name, i)
				}
				if best[len(best)-1-i] != e.st {
					return failf("%s: best-first listing %v is not the reverse of %v", at, names(best), names(worst))
				}
			}
			return nil
		}
		for _, list := range [][]*files.Stats{worst, best} {
			seen := map[int64]bool{}
			for _, f := range list {
				if seen[f.Filename] || index(f.Filename) < 0 {
					return failf("%s: listing %v is not the membership", at, names(list))
				}
				seen[f.Filename] = true
			}
		}
		return nil
	}
	victims := func(at string, amount float64) ([]int64, error) {
		got := append([]*files.Stats(nil), queue.GetWorstFilesUp2Size(q, amount)...)
		if ordered {
			want := prefix(amount)
			if len(got) != len(want) {
				return nil, failf("%s: %d victims for amount %v, want %d", at, len(got), amount, len(want))
			}
			for i, e := range want {
				if got[i] != e.st {
					return nil, failf("%s: victim %d for amount %v is file %d, want %d", at, i, amount, got[i].Filename, e.name)
				}
			}
			return names(got), nil
		}
		seen := map[int64]bool{}
		var sum float64
		for i, f := range got {
			if seen[f.Filename] || index(f.Filename) < 0 {
				return nil, failf("%s: victims %v are not distinct members", at, names(got))
			}
			seen[f.Filename] = true
			if i > 0 && sum >= amount {
				return nil, failf("%s: more victims than needed for amount %v", at, amount)
			}
			sum += f.Size
		}
		if sum < amount && len(got) != len(held) {
			return nil, failf("%s: victims of size %v do not reach %v", at, sum, amount)
		}
		return names(got), nil
	}
	if err := check("start"); err != nil {
		return err
	}
	maxHeld := 0
	for i, op := range c.Ops {
		at := fmt.Sprintf("op %d (%s)", i, op.K)
		var absent []*files.Stats
		for _, f := range all {
			if index(f.Filename) < 0 {
				absent = append(absent, f)
			}
		}
		insert := func(f *files.Stats) {
			queue.Insert(q, f)
			seq++
			held = append(held, &c01Entry{st: f, key: c01Key(c.Kind, f), seq: seq, name: f.Filename})
			in[f.Filename] = true
		}
		switch op.K {
		case "ins":
			if len(absent) == 0 {
				continue
			}
			f := absent[op.I%len(absent)]
			f.Size = op.S
			f.Weight = op.S*3 - 7
			f.Frequency += op.D
			insert(f)
		case "run":
			// N files, one after the other
			for k := 0; k < op.N && len(absent) > 0; k++ {
				at := (op.I + k*int(op.D)) % len(absent)
				f := absent[at]
				absent = append(absent[:at:at], absent[at+1:]...)
				f.Size = 1 + float64(k)*op.S
				f.Weight = float64(op.N/2-k) * op.S
				f.Frequency += op.D * int64(k)
				insert(f)
			}
			r.Class("run")
		case "runu":
			for k := 0; k < op.N && len(held) > 0; k++ {
				e := held[(op.I+k*int(1+op.D))%len(held)]
				e.st.Frequency += op.D
				e.st.Weight += op.S * float64(k%9-4)
				if op.N == 70 {
					e.st.Size += op.S * float64(k)
				}
				queue.Update(q, e.st)
				seq++
				e.seq, e.key = seq, c01Key(c.Kind, e.st)
			}
			r.Class("run")
		case "upd":
			if len(held) == 0 {
				continue
			}
			e := held[op.I%len(held)]
			e.st.Frequency += op.D
			e.st.Recency = int64(i)
			e.st.Weight = op.S * float64(1+op.D)
			if op.N == 3 {
				e.st.Size = op.S
			}
			queue.Update(q, e.st)
			seq++
			e.seq, e.key = seq, c01Key(c.Kind, e.st)
			if len(held) > 1 {
				moves++
			}
		case "rem":
			var chosen []int64
			for k := 0; k < op.N && k < len(held); k++ {
				chosen = append(chosen, held[(op.I+k*7)%len(held)].name)
			}
			// distinct names only
			seen := map[int64]bool{}
			uniq := chosen[:0]
			for _, n := range chosen {
				if !seen[n] {
					seen[n] = true
					uniq = append(uniq, n)
				}
			}
			list := append([]int64(nil), uniq...)
			queue.Remove(q, list)
			for _, n := range uniq {
				drop(n)
			}
			if len(uniq) > 0 {
				r.Class("remove-chosen")
			}
		case "remw":
			var list []int64
			if ordered {
				for k, e := range sorted() {
					if k >= op.N {
						break
					}
					list = append(list, e.name)
				}
			} else {
				for k, f := range queue.GetFromWorst(q) {
					if k >= op.N {
						break
					}
					list = append(list, f.Filename)
				}
			}
			gone := append([]int64(nil), list...)
			queue.RemoveWorst(q, list)
			for _, n := range gone {
				drop(n)
			}
			if len(gone) > 0 {
				r.Class("remove-worst")
			}
			if len(gone) > 1 && len(held) > 0 {
				r.Class("remove-worst-partial")
			}
		case "amt", "amtw":
			amount := op.S*float64(op.N) + 0.25
			list, err := victims(at, amount)
			if err != nil {
				return err
			}
			if len(list) > 1 {
				r.Class("several-victims")
			}
			if op.K == "amtw" {
				gone := append([]int64(nil), list...)
				queue.RemoveWorst(q, list)
				for _, n := range gone {
					drop(n)
				}
			}
		}
		if len(held) > maxHeld {
			maxHeld = len(held)
		}
		if err := check(at); err != nil {
			return err
		}
	}
	if maxHeld > 0 {
		// a re-initialised queue is empty again
		queue.Init(q)
		held, in = nil, map[int64]bool{}
		if err := check("after init"); err != nil {
			return err
		}
	}
	r.Class(c.Kind)
	if maxHeld >= 3 && moves > 0 && (r.Is("remove-chosen") || r.Is("remove-worst") || r.Is("several-victims")) {
		r.NonTrivial()
	}
	return nil
}

func TestC01_Queues(t *testing.T) {
	runSpec(t, Spec[c01Case]{
		Prop: "C01", Name: "Queues",
		Rule:     "random queue type and operation sequence (insert, update after statistics change, remove chosen, remove worst, list victims); non-trivial: at least 3 files held at once, an update among several files and a removal or a multi-file victim list",
		Quick:    2500,
		Thorough: 40000,
		Gen:      c01Gen,
		Run:      c01Run,
	})
}
