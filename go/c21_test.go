//go:build go1.21

package zverif

import (
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
)

// C21: record filters.

var recordFilters = map[string]struct {
	f    cache.Filter
	want func(r cache.CSVRecord) bool
}{
	"SuccessJob":    {cache.SuccessJob{}, func(r cache.CSVRecord) bool { return r.JobSuccess && r.JobExecExitCode == 0 }},
	"ItDataMcTypes": {cache.ItDataMcTypes{}, func(r cache.CSVRecord) bool { return r.DataType == 0 || r.DataType == 1 }},
	"UsDataMcTypes": {cache.UsDataMcTypes{}, func(r cache.CSVRecord) bool { return r.DataType == 0 || r.DataType == 3 }},
	"UsMINIAODNOT1andT3": {cache.UsMINIAODNOT1andT3{}, func(r cache.CSVRecord) bool {
		return (r.FileType == 2 || r.FileType == 9) && r.SiteName < 9
	}},
	"UsMINIAODNOFNALLPCNOT1FNALLFilter": {cache.UsMINIAODNOFNALLPCNOT1FNALLFilter{}, func(r cache.CSVRecord) bool {
		return (r.FileType == 2 || r.FileType == 9) && r.SiteName != 9 && r.SiteName != 16
	}},
	"UsMINIAODandNOFNALLPCFilter": {cache.UsMINIAODandNOFNALLPCFilter{}, func(r cache.CSVRecord) bool {
		return (r.FileType == 2 || r.FileType == 9) && r.SiteName != 16
	}},
}

var filterNames = []string{"ItDataMcTypes", "SuccessJob", "UsDataMcTypes", "UsMINIAODNOFNALLPCNOT1FNALLFilter", "UsMINIAODNOT1andT3", "UsMINIAODandNOFNALLPCFilter"}

// simRecGen draws a record whose filtered fields lie around the filters' limits.
func simRecGen(okPerc int) *rapid.Generator[cache.CSVRecord] {
	small := rapid.Int64Range(-1, 17)
	return rapid.Custom(func(rt *rapid.T) cache.CSVRecord {
		r := recGen().Draw(rt, "rec")
		r.DataType = rapid.SampledFrom([]int64{0, 0, 1, 3, 2, 4, -1}).Draw(rt, "dataType")
		r.FileType = rapid.SampledFrom([]int64{2, 9, 2, 9, 0, 1, 3, 8, 10, 29}).Draw(rt, "fileType")
		r.SiteName = small.Draw(rt, "site")
		ok := rapid.IntRange(1, 100).Draw(rt, "ok") <= okPerc
		r.JobSuccess = ok || rapid.Bool().Draw(rt, "success")
		r.JobExecExitCode = 0
		if !ok {
			r.JobExecExitCode = rapid.SampledFrom([]int64{0, 0, 1, -1, 84, 50660}).Draw(rt, "exitCode")
		}
		return r
	})
}

type c21Case struct {
	Recs  []cache.CSVRecord `json:"recs"`
	Data  string            `json:"data,omitempty"`
	Rec   string            `json:"rec,omitempty"`
	ToRun bool              `json:"toRun,omitempty"`
}

// recorder notes the files a simulation asks the cache for.
type recorder struct {
	cache.Cache
	asked []int64
}

func (r *recorder) Check(key int64) bool {
	r.asked = append(r.asked, key)
	return r.Cache.Check(key)
}

// simStats reads the run statistics of a simulation.
func simStats(path string) (st cache.SimulationStats, err error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return st, fmt.Errorf("no run statistics: %w", err)
	}
	return st, json.Unmarshal(data, &st)
}

func c21Run(c c21Case, r *Rec) error {
	for _, name := range filterNames {
		f := recordFilters[name]
		for _, rec := range c.Recs {
			if got, want := f.f.Check(rec), f.want(rec); got != want {
				return failf("%s: data type %d, file type %d, site %d, success %t, exit code %d: accepted %t", name, rec.DataType, rec.FileType, rec.SiteName, rec.JobSuccess, rec.JobExecExitCode, got)
			}
			if f.want(rec) {
				r.Class(name)
			}
		}
	}
	if len(c.Recs) > 0 {
		r.NonTrivial()
	}
	if !c.ToRun {
		return nil
	}
	return inDir(func(dir string) error {
		recs := slices.Clone(c.Recs)
		want, refused := []int64{}, int64(0)
		for i := range recs {
			recs[i].CPUTime, recs[i].IOTime = 5, 5
			recs[i].Day = day0 + int64(i)*60
			recs[i].Size = float64(1 << 20)
			recs[i].Filename = int64(i)
			if !recordFilters["SuccessJob"].want(recs[i]) || c.Data != "" && !recordFilters[c.Data].want(recs[i]) || c.Rec != "" && !recordFilters[c.Rec].want(recs[i]) {
				refused++
			} else {
				want = append(want, int64(i))
			}
		}
		p := cache.SimulationParams{DataPath: traceFile{Name: "in.csv", Records: recs}.write(dir), OutFile: "out.csv", ResultRunStatsName: "stats.json",
			WindowSize: 7, WindowStart: 0, WindowStop: 5, OutputUpdateDelay: 1e9}
		if c.Data != "" {
			p.DataTypeFilter = recordFilters[c.Data].f
		}
		if c.Rec != "" {
			p.RecordFilter = recordFilters[c.Rec].f
		}
		in := &recorder{Cache: makeCache(Cfg{Type: "lru", Cap: 1000, MaxDiff: 6, Step: 100, BW: 10, Region: "all"}, dir)}
		cache.Simulate("lru", in, p)
		if !slices.Equal(in.asked, want) {
			return failf("filters %q and %q: the cache was asked for the records %v, accepted are %v", c.Data, c.Rec, in.asked, want)
		}
		st, err := simStats("stats.json")
		if err != nil {
			return err
		}
		if st.TotFilteredRecords != refused || st.TotNumRecords != int64(len(recs)) {
			return failf("%d of %d records refused, counted %d of %d", refused, len(recs), st.TotFilteredRecords, st.TotNumRecords)
		}
		if refused > 0 {
			r.Class("refused-in-simulation")
		}
		return nil
	})
}

func TestC21_Filters(t *testing.T) {
	runSpec(t, Spec[c21Case]{
		Prop: "C21", Name: "Filters",
		Rule:     "generated records with types, sites and exit codes around the filters' limits judged by every filter, and simulations with filters whose requests to the cache are recorded; non-trivial: any record",
		Quick:    4000,
		Thorough: 20000,
		Gen: func(rt *rapid.T) c21Case {
			c := c21Case{ToRun: rapid.IntRange(0, 2).Draw(rt, "run") == 0}
			c.Data = rapid.SampledFrom([]string{"", "ItDataMcTypes", "UsDataMcTypes"}).Draw(rt, "data")
			c.Rec = rapid.SampledFrom([]string{"", "UsMINIAODNOT1andT3", "UsMINIAODNOFNALLPCNOT1FNALLFilter", "UsMINIAODandNOFNALLPCFilter"}).Draw(rt, "filter")
			c.Recs = sliceOf(rt, "recs", simRecGen(40), 0, 1, 4, 10)
			return c
		},
		Run: c21Run,
	})
}
