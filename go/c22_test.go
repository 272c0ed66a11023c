//go:build go1.21

package zverif

import (
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"simulator/v2/cache"
)

// C22: a simulation reports what its trace does to the cache, day by day.

type simReq struct {
	F    int     `json:"f"`
	D    int64   `json:"d,omitempty"`
	P    int64   `json:"p,omitempty"`
	CPU  float64 `json:"cpu"`
	IO   float64 `json:"io"`
	Bad  int     `json:"bad,omitempty"` // 1 failed job, 2 exit code, 3 data type, 4 file type, 5 site
	Site int64   `json:"site,omitempty"`
	DT   int64   `json:"dt,omitempty"` // data type
	FT   int64   `json:"ft,omitempty"` // file type, less 2
}

type c22Case struct {
	Cfg    Cfg       `json:"cfg"`
	Sizes  []float64 `json:"sizes"`
	Reqs   []simReq  `json:"reqs"`
	Size   int       `json:"size"`
	Start  int       `json:"start"`
	Stop   int       `json:"stop"`
	Data   string    `json:"data,omitempty"`
	Filter string    `json:"filter,omitempty"`
	Split  []int     `json:"split,omitempty"` // folder of several files
	Gz     bool      `json:"gz,omitempty"`
}

func (c c22Case) records() []cache.CSVRecord { return simRecords(c.Reqs, c.Sizes, day0) }

func simRecords(reqs []simReq, sizes []float64, now int64) []cache.CSVRecord {
	res := []cache.CSVRecord{}
	for i, q := range reqs {
		now += q.D
		r := cache.CSVRecord{Filename: fname(q.F), Size: sizes[q.F] * (1 << 20), SizeM: sizes[q.F], Protocol: q.P, CPUTime: q.CPU, IOTime: q.IO,
			Day: now, SiteName: q.Site, UserID: int64(i), JobSuccess: true, FileType: 2 + q.FT, DataType: q.DT, JobID: int64(i)}
		switch q.Bad {
		case 1:
			r.JobSuccess = false
		case 2:
			r.JobExecExitCode = 8001
		case 3:
			r.DataType = 7
		case 4:
			r.FileType = 5
		case 5:
			r.SiteName = 16
		}
		res = append(res, r)
	}
	return res
}

// rowOf renders the figures of a day by column.
func rowOf(c cache.Cache, date time.Time) map[string]string {
	f := func(v float64) string { return fmt.Sprintf("%f", v) }
	d := func(v int64) string { return fmt.Sprintf("%d", v) }
	p := func(v float64) string { return fmt.Sprintf("%0.2f", v) }
	row := map[string]string{
		"date": date.String(), "num req": d(c.NumRequests()), "num hit": d(c.NumHits()), "num added": d(c.NumAdded()), "num deleted": d(c.NumDeleted()),
		"num redirected": d(c.NumRedirected()), "num miss after delete": fmt.Sprint(c.GetTotDeletedFileMiss()), "size redirected": f(c.RedirectedSize()),
		"cache size": f(c.GetMaxSize()), "size": f(c.Size()), "capacity": f(c.Capacity()), "bandwidth": f(c.Bandwidth()), "bandwidth usage": f(c.BandwidthUsage()),
		"hit rate": p(c.HitRate()), "weighted hit rate": p(c.WeightedHitRate()), "written data": f(c.DataWritten()), "read data": f(c.DataRead()),
		"read on hit data": f(c.DataReadOnHit()), "read on miss data": f(c.DataReadOnMiss()), "deleted data": f(c.DataDeleted()),
		"avg free space": f(c.AvgFreeSpace()), "std dev free space": f(c.StdDevFreeSpace()), "CPU efficiency": f(c.CPUEff()), "CPU hit efficiency": f(c.CPUHitEff()),
		"CPU miss efficiency": f(c.CPUMissEff()), "CPU efficiency upper bound": f(c.CPUEffUpperBound()), "CPU efficiency lower bound": f(c.CPUEffLowerBound()),
	}
	for info, names := range map[string][]string{
		"epsilonStats":          {"Addition epsilon", "Eviction epsilon"},
		"valueFunctions":        {"Addition qvalue function", "Eviction qvalue function"},
		"evictionStats":         {"Eviction calls", "Eviction forced calls"},
		"evictionCategoryStats": {"Eviction mean num categories", "Eviction std dev num categories"},
		"actionStats":           {"Action store", "Action not store", "Action delete all", "Action delete half", "Action delete quarter", "Action delete one", "Action not delete"},
	} {
		vals := strings.Split(c.ExtraOutput(info), ",")
		for i, n := range names {
			if len(vals) == len(names) {
				row[n] = vals[i]
			}
		}
	}
	return row
}

const plainColumns = 27
const rlColumns = 15

// simOutcome is what a simulation has to report.
type simOutcome struct {
	rows                                         []map[string]string
	total, jumped, filtered, invalid, redirected int64
	redirSize                                    float64
	stopped                                      bool
	extra                                        string
	err                                          error // the twin's own figures are wrong
}

// follow feeds a cache with a trace: days, then windows, then records.
func follow(cfg Cfg, twin cache.Cache, recs []cache.CSVRecord, size, start, stop int, data, filter string) (o simOutcome) {
	day := 0
	book := &ledger{cfg: cfg}
	closed := func(at string) {
		if err := book.check(twin, at); err != nil && o.err == nil {
			o.err = err
		}
		book = &ledger{cfg: cfg}
	}
	var first time.Time
	for i, rec := range recs {
		now := time.Unix(rec.Day, 0)
		if i == 0 {
			first = now
		}
		if now.Sub(first) >= 23*time.Hour {
			closed(fmt.Sprintf("day %d", day))
			if day/size >= start {
				o.rows = append(o.rows, rowOf(twin, first))
			}
			twin.ClearStats()
			day++
			first = now
		}
		window := day / size
		if window >= stop {
			o.stopped = true
			break
		}
		o.total++
		if window < start {
			o.jumped++
			continue
		}
		if !recordFilters["SuccessJob"].want(rec) || data != "" && !recordFilters[data].want(rec) || filter != "" && !recordFilters[filter].want(rec) {
			o.filtered++
			continue
		}
		eff := rec.CPUTime / (rec.CPUTime + rec.IOTime) * 100
		if math.IsNaN(eff) || math.IsInf(eff, 0) || eff < 0 || eff > 100 {
			o.invalid++
			continue
		}
		if book.get(twin, rec, eff) {
			o.redirected++
			o.redirSize += rec.SizeM
		}
	}
	closed("last day")
	o.extra = twin.ExtraStats()
	return o
}

// compare checks the result files of a simulation.
func (o simOutcome) compare(cacheType, results, stats string) error {
	if o.err != nil {
		return o.err
	}
	out, err := os.Open(results)
	if err != nil {
		return failf("no results: %v", err)
	}
	defer out.Close()
	cr := csv.NewReader(out)
	cr.FieldsPerRecord = -1
	got, err := cr.ReadAll()
	if err != nil {
		return failf("the results cannot be read: %v", err)
	}
	cols := plainColumns
	if cacheType == "aiRL" {
		cols += rlColumns
	}
	if len(got) == 0 || len(got[0]) != cols {
		return failf("the results' header is %v", got)
	}
	head := got[0]
	seen := map[string]bool{}
	for _, h := range head {
		if seen[h] {
			return failf("column %q appears twice", h)
		}
		seen[h] = true
	}
	for i := 0; i < len(o.rows) && i+1 < len(got); i++ {
		if len(got[i+1]) != cols {
			return failf("row %d has %d columns: %v", i, len(got[i+1]), got[i+1])
		}
		for j, h := range head {
			want, in := o.rows[i][h]
			if !in {
				return failf("unknown column %q", h)
			}
			if got[i+1][j] != want {
				return failf("row %d, column %q: %s, should be %s", i, h, got[i+1][j], want)
			}
		}
	}
	if len(got)-1 != len(o.rows) {
		return failf("%d rows, %d days inside the window were closed", len(got)-1, len(o.rows))
	}
	st, err := simStats(stats)
	if err != nil {
		return err
	}
	if st.TotNumRecords != o.total || st.TotJumpedRecords != o.jumped || st.TotFilteredRecords != o.filtered || st.TotInvalidRecords != o.invalid || st.TotRedirectedRecords != o.redirected || !near(st.SizeRedirectedRecords, o.redirSize) {
		return failf("counted total %d, skipped %d, filtered %d, invalid %d, redirected %d of %v; should be %d, %d, %d, %d, %d of %v",
			st.TotNumRecords, st.TotJumpedRecords, st.TotFilteredRecords, st.TotInvalidRecords, st.TotRedirectedRecords, st.SizeRedirectedRecords, o.total, o.jumped, o.filtered, o.invalid, o.redirected, o.redirSize)
	}
	if st.Extra != o.extra {
		return failf("extra figures %q, should be %q", st.Extra, o.extra)
	}
	return nil
}

func (o simOutcome) classes(r *Rec) {
	for name, n := range map[string]int64{"skipped": o.jumped, "filtered": o.filtered, "invalid": o.invalid, "redirected": o.redirected, "rows": int64(len(o.rows))} {
		if n > 0 {
			r.Class(name)
		}
	}
	if o.stopped {
		r.Class("stopped")
	}
	if len(o.rows) > 0 && o.total > o.jumped+o.filtered+o.invalid {
		r.NonTrivial()
	}
}

// writeTrace writes a trace as one file or as a folder of several.
func writeTrace(dir string, recs []cache.CSVRecord, split []int, gz bool) string {
	ext := ".csv"
	if gz {
		ext = ".csv.gz"
	}
	if len(split) == 0 {
		return traceFile{Name: "trace" + ext, Records: recs}.write(dir)
	}
	path := filepath.Join(dir, "traces")
	if err := os.Mkdir(path, 0o755); err != nil {
		panic(err)
	}
	from := 0
	for i, n := range append(append([]int{}, split...), len(recs)) {
		to := min(from+n, len(recs))
		traceFile{Name: fmt.Sprintf("results_%02d%s", i, ext), Records: recs[from:to]}.write(path)
		from = to
	}
	return path
}

func c22Run(c c22Case, r *Rec) error {
	return inDir(func(dir string) error {
		recs := c.records()
		path := writeTrace(dir, recs, c.Split, c.Gz)
		if len(c.Split) > 0 {
			r.Class("folder")
		}
		in, twin := makeCache(c.Cfg, dir), makeCache(c.Cfg, dir)
		p := cache.SimulationParams{DataPath: path, OutFile: "out.csv", ResultRunStatsName: "stats.json", WindowSize: c.Size, WindowStart: c.Start, WindowStop: c.Stop, OutputUpdateDelay: 1e9}
		if c.Data != "" {
			p.DataTypeFilter = recordFilters[c.Data].f
		}
		if c.Filter != "" {
			p.RecordFilter = recordFilters[c.Filter].f
		}

		want := follow(c.Cfg, twin, recs, c.Size, c.Start, c.Stop, c.Data, c.Filter)

		cache.Simulate(c.Cfg.Type, in, p)

		if err := want.compare(c.Cfg.Type, "out.csv", "stats.json"); err != nil {
			return err
		}
		// the last day stays open: its figures are still in the cache
		if a, b := counters(in).str(), counters(twin).str(); a != b {
			return failf("the cache ends with %s, should be %s", a, b)
		}
		r.Class(c.Cfg.Type)
		want.classes(r)
		return nil
	})
}

func simReqGen(n int) *rapid.Generator[simReq] {
	return rapid.Custom(func(rt *rapid.T) simReq {
		q := simReq{F: rapid.IntRange(0, n-1).Draw(rt, "f"), P: rapid.SampledFrom([]int64{0, 1, 1, 2}).Draw(rt, "prot"),
			D:   rapid.SampledFrom([]int64{0, 60, 60, 60, 3600, 3600, 7 * 3600, 7 * 3600, 82799, 82800, 86400, 86400, 2 * 86400, -3600, 86400, 3600, -4 * 86400}).Draw(rt, "gap"),
			CPU: rapid.SampledFrom([]float64{1, 5, 30, 0, 99.5, 7, 3600}).Draw(rt, "cpu"), IO: rapid.SampledFrom([]float64{0, 1, 5, 10, 100}).Draw(rt, "io"),
			Site: rapid.Int64Range(0, 10).Draw(rt, "site"),
			DT:   rapid.SampledFrom([]int64{0, 0, 0, 0, 0, 0, 0, 1, 1, 3, 3, 4}).Draw(rt, "dataType"),
			FT:   rapid.SampledFrom([]int64{0, 0, 0, 0, 0, 0, 0, 7, 7, -2, 1, 6}).Draw(rt, "fileType")}
		switch rapid.IntRange(0, 11).Draw(rt, "kind") {
		case 0:
			q.Bad = rapid.IntRange(1, 5).Draw(rt, "bad")
		case 1:
			q.CPU = rapid.SampledFrom([]float64{-5, -1, 0, 1, 3600, 300}).Draw(rt, "badCPU")
			q.IO = rapid.SampledFrom([]float64{-1, 0, 5, -0.5}).Draw(rt, "badIO")
		}
		return q
	})
}

func TestC22_Days(t *testing.T) {
	runSpec(t, Spec[c22Case]{
		Prop: "C22", Name: "Days",
		Rule:     "generated traces over many days simulated with windows and filters; rows, statistics and final figures against a twin cache fed by a direct reading of the trace; non-trivial: a closed day in the window and a record that reached the cache",
		Quick:    1500,
		Thorough: 6000,
		Gen: func(rt *rapid.T) c22Case {
			types := []string{"lru", "lfu", "sizeBig", "sizeSmall", "weightFunLRU", "lruDatasetVerifier", "random_lru", "infinite", "aiRL", "aiRL"}
			c := c22Case{Cfg: anyCfg(rt, types)}
			c.Sizes = sizesGen(rt, 3, 6, 12, 24)
			completeCfg(rt, &c.Cfg, len(c.Sizes), false)
			if c.Cfg.Type == "infinite" {
				c.Cfg.WM, c.Cfg.Redirect = false, false
			}
			c.Size = rapid.SampledFrom([]int{1, 1, 2, 3, 7}).Draw(rt, "window")
			c.Start = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "start")
			c.Stop = c.Start + rapid.SampledFrom([]int{1, 1, 2, 4, 50}).Draw(rt, "stop")
			c.Data = rapid.SampledFrom([]string{"", "ItDataMcTypes", "UsDataMcTypes"}).Draw(rt, "data")
			c.Filter = rapid.SampledFrom([]string{"", "UsMINIAODNOT1andT3", "UsMINIAODNOFNALLPCNOT1FNALLFilter", "UsMINIAODandNOFNALLPCFilter"}).Draw(rt, "filter")
			n := len(c.Sizes)
			c.Reqs = sliceOf(rt, "reqs", simReqGen(n), 1, 6, 25, 60, 100)
			if rapid.IntRange(0, 3).Draw(rt, "folder") == 0 {
				c.Split = rapid.SliceOfN(rapid.IntRange(0, 30), 1, 3).Draw(rt, "split")
			}
			c.Gz = rapid.Bool().Draw(rt, "gz")
			return c
		},
		Run: c22Run,
	})
}
