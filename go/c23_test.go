//go:build go1.21

package zverif

import (
	"compress/gzip"
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"strconv"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// logLine is a line of the simulation log.
type logLine struct {
	Tick      int64
	Kind      string
	Size, Cap float64
	Name      int64
	FSize     float64
}

// phases takes the files held at the accounting and at the watermark check.
type phases struct {
	cache.Cache
	atAfter, atWM       map[int64]files.Stats
	sizeAfter, sizeWM   float64
	accounted, wmCalled bool
	capAfter            float64
}

func (p *phases) AfterRequest(req *cache.Request, st *files.Stats, hit bool, added bool) {
	p.atAfter, p.sizeAfter, p.capAfter = snapOf(p.Cache).Held, p.Cache.Size(), p.Cache.Capacity()
	p.accounted = true
	p.Cache.AfterRequest(req, st, hit, added)
}

func (p *phases) CheckWatermark() bool {
	p.atWM, p.sizeWM = snapOf(p.Cache).Held, p.Cache.Size()
	p.wmCalled = true
	return p.Cache.CheckWatermark()
}

// logItem is what the log has to say next: a line, or a release of files.
type logItem struct {
	line    *logLine
	tick    int64
	size    float64 // occupied before the release
	victims map[int64]float64
	free    bool // announced by a free line
}

func readSimLog(path string) ([]logLine, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, fmt.Errorf("the log is missing: %v", err)
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return nil, fmt.Errorf("the log is not complete: %v", err)
	}
	rows, err := csv.NewReader(z).ReadAll()
	if err != nil {
		return nil, fmt.Errorf("the log is not complete: %v", err)
	}
	if len(rows) == 0 {
		return nil, fmt.Errorf("the log has no header")
	}
	col := map[string]int{}
	for i, name := range rows[0] {
		col[name] = i
	}
	for _, name := range []string{"tick", "action or event", "cache size", "cache capacity", "filename", "size"} {
		if _, in := col[name]; !in {
			return nil, fmt.Errorf("the log has no column %q: %v", name, rows[0])
		}
	}
	res := []logLine{}
	for _, r := range rows[1:] {
		num := func(name string) float64 {
			v, e := strconv.ParseFloat(r[col[name]], 64)
			if e != nil {
				err = fmt.Errorf("%q in column %q of %v", r[col[name]], name, r)
			}
			return v
		}
		l := logLine{Kind: r[col["action or event"]], Size: num("cache size"), Cap: num("cache capacity"), FSize: num("size")}
		tick, e1 := strconv.ParseInt(r[col["tick"]], 10, 64)
		name, e2 := strconv.ParseInt(r[col["filename"]], 10, 64)
		if e1 != nil || e2 != nil {
			return nil, fmt.Errorf("unreadable log line %v", r)
		}
		l.Tick, l.Name = tick, name
		switch l.Kind {
		case "HIT", "MISS", "ADD", "FREE", "DELETE", "REDIRECT":
			res = append(res, l)
		}
		if err != nil {
			return nil, err
		}
	}
	return res, nil
}

// printed tells whether b is how the log prints a.
func printed(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return math.Abs(a-b) <= 0.00501
}

func perc(size float64, c cache.Cache) float64 { return size / c.GetMaxSize() * 100 }

func sizesOf(h map[int64]files.Stats, names []int64) map[int64]float64 {
	res := map[int64]float64{}
	for _, n := range names {
		res[n] = h[n].Size
	}
	return res
}

func runLog(hc HistCase, rec *Rec) error {
	return inDir(func(dir string) error {
		cfg := hc.Cfg
		cfg.Log = true
		inst := makeCache(cfg, dir)
		agents := agentQueue(cfg)
		want := []logItem{}
		tick := int64(0)
		now := day0
		release := func(before, after map[int64]files.Stats, size float64, free, opt bool) {
			gone := missing(before, after)
			opt = opt && len(before) == 0
			if len(gone) == 0 && !opt {
				return
			}
			want = append(want, logItem{tick: tick, size: size, victims: sizesOf(before, gone), free: free})
		}
		for _, op := range hc.Ops {
			now += op.D
			before, size := snapOf(inst).Held, inst.Size()
			if op.K != "" {
				applyOther(inst, op)
				release(before, snapOf(inst).Held, size, op.K != "clearStats", true)
				continue
			}
			name, fsize := fname(op.F), hc.Sizes[op.F]
			capBefore := inst.Capacity()
			redirected := inst.NumRedirected()
			p := &phases{Cache: inst}
			added, red := cache.GetFile(p, name, fsize, op.P, op.E, now, op.S, op.U, int64(0))
			kind := "MISS"
			if _, held := before[name]; held {
				kind = "HIT"
			}
			want = append(want, logItem{line: &logLine{Tick: tick, Kind: kind, Size: size, Cap: capBefore, Name: name, FSize: math.NaN()}})
			if red != (inst.NumRedirected() > redirected) {
				return fmt.Errorf("redirection of file %d is reported as %v but counted otherwise", name, red)
			}
			if red {
				rec.Class("redirect")
				want = append(want, logItem{line: &logLine{Tick: tick, Kind: "REDIRECT", Size: size, Cap: capBefore, Name: name, FSize: fsize}})
				continue
			}
			if !p.accounted || !p.wmCalled {
				return fmt.Errorf("the request of file %d was not processed", name)
			}
			atRoom := p.atAfter
			if added {
				if _, held := p.atAfter[name]; !held {
					return fmt.Errorf("file %d was admitted but is not held", name)
				}
			}
			release(before, atRoom, size, !agents, kind == "MISS" && size+fsize > inst.GetMaxSize())
			if added {
				rec.Class("add")
				want = append(want, logItem{line: &logLine{Tick: tick, Kind: "ADD", Size: p.sizeAfter, Cap: p.capAfter, Name: name, FSize: fsize}})
			}
			release(p.atAfter, p.atWM, p.sizeAfter, false, false) // the agent's turn
			if len(missing(p.atAfter, p.atWM)) > 0 {
				rec.Class("agent")
			}
			tick++
			final := snapOf(inst).Held
			release(p.atWM, final, p.sizeWM, true, true)
			if len(missing(p.atWM, final)) > 0 {
				rec.Class("watermark")
			}
		}
		held := snapOf(inst).Held
		if err := inst.Terminate(); err != nil {
			return fmt.Errorf("terminate: %v", err)
		}
		lines, err := readSimLog("simulationLogFile.csv.gz")
		if err != nil {
			return err
		}
		return compareLog(rec, want, lines, held, inst, agents)
	})
}

func compareLog(rec *Rec, want []logItem, lines []logLine, held map[int64]files.Stats, inst cache.Cache, agents bool) error {
	i := 0
	next := func() *logLine {
		if i < len(lines) {
			return &lines[i]
		}
		return nil
	}
	for n, w := range want {
		l := next()
		if w.line != nil {
			e := *w.line
			if l == nil {
				return fmt.Errorf("the log ends after %d lines, before %+v (event %d)", len(lines), e, n)
			}
			if l.Kind != e.Kind || l.Tick != e.Tick || l.Name != e.Name || !printed(e.Size, l.Size) || !printed(e.Cap, l.Cap) ||
				(!math.IsNaN(e.FSize) && !printed(e.FSize, l.FSize)) {
				return fmt.Errorf("line %d of the log is %+v, but %+v happened", i+1, *l, e)
			}
			i++
			continue
		}
		announced := l != nil && l.Kind == "FREE"
		right := announced && l.Tick == w.tick && printed(w.size, l.Size) && printed(perc(w.size, inst), l.Cap)
		switch {
		case len(w.victims) == 0:
			if right {
				rec.Class("empty-release")
				i++
			}
		case announced && (w.free || agents):
			if !right {
				return fmt.Errorf("line %d of the log is %+v, but the release started at request %d with %f MB", i+1, *l, w.tick, w.size)
			}
			rec.Class("release")
			i++
		case w.free && !agents:
			return fmt.Errorf("files %v were evicted without a free line: line %d is %+v", w.victims, i+1, l)
		}
		size := w.size
		left := map[int64]float64{}
		for k, v := range w.victims {
			left[k] = v
		}
		for len(left) > 0 {
			l = next()
			if l == nil {
				return fmt.Errorf("the log ends before the eviction of %v", left)
			}
			fs, is := left[l.Name]
			if l.Kind != "DELETE" || !is {
				return fmt.Errorf("line %d of the log is %+v, but %v were evicted there", i+1, *l, left)
			}
			size -= fs
			if l.Tick != w.tick || !printed(fs, l.FSize) || !printed(size, l.Size) || !printed(perc(size, inst), l.Cap) {
				return fmt.Errorf("line %d of the log is %+v, but that eviction happened at request %d, of %f MB, leaving %f MB", i+1, *l, w.tick, fs, size)
			}
			delete(left, l.Name)
			i++
		}
	}
	if i != len(lines) {
		return fmt.Errorf("line %d of the log is %+v, but nothing else happened", i+1, lines[i])
	}
	// replay
	now := map[int64]bool{}
	for n, l := range lines {
		switch l.Kind {
		case "ADD":
			if now[l.Name] {
				return fmt.Errorf("line %d adds file %d, which is held", n+1, l.Name)
			}
			now[l.Name] = true
		case "DELETE":
			if !now[l.Name] {
				return fmt.Errorf("line %d deletes file %d, which is not held", n+1, l.Name)
			}
			delete(now, l.Name)
		}
	}
	if len(now) != len(held) {
		return fmt.Errorf("the log leaves %d files, the cache holds %d", len(now), len(held))
	}
	for n := range held {
		if !now[n] {
			return fmt.Errorf("the cache holds file %d, the log does not say so", n)
		}
	}
	if rec.Is("add") && (rec.Is("release") || rec.Is("agent") || rec.Is("watermark")) {
		rec.NonTrivial()
	}
	return nil
}

func TestC23_Log(t *testing.T) {
	runSpec(t, Spec[HistCase]{
		Prop: "C23", Name: "Log",
		Rule:     "files were admitted and evicted while the log was written",
		Quick:    280,
		Thorough: 6000,
		Gen: func(rt *rapid.T) HistCase {
			cfg := anyCfg(rt, append([]string{"infinite"}, boundedTypes...))
			hc := HistCase{}
			hc.Sizes = sizesGen(rt, 3, 6, 10, 20)
			if cfg.Type == "infinite" {
				cfg.WM, cfg.High, cfg.Low, cfg.Redirect = false, 0, 0, false
			}
			completeCfg(rt, &cfg, len(hc.Sizes), false)
			others := []string{"free", "freep", "clearStats"}
			if agentQueue(cfg) || cfg.Type == "infinite" {
				others = []string{"clearStats"}
			}
			hc.Cfg = cfg
			hc.Ops = sliceOf(rt, "ops", opGen(len(hc.Sizes), 12, others...), 10, 30, 60, 150)
			return hc
		},
		Run: runLog,
	})
}
