//go:build go1.21

package zverif

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache"
)

// C20: trace files are read completely, in order, field by field.

type c20Case struct {
	Files  []traceFile `json:"files"`
	Others []string    `json:"others,omitempty"` // names of files that are not traces
	Single bool        `json:"single,omitempty"`
}

func collect(ch chan cache.CSVRecord) []cache.CSVRecord {
	res := []cache.CSVRecord{}
	for r := range ch {
		res = append(res, r)
	}
	return res
}

func sameRecords(want, got []cache.CSVRecord) error {
	for i := 0; i < len(want) && i < len(got); i++ {
		if err := recDiff(want[i], got[i]); err != nil {
			return fmt.Errorf("record %d: %w", i, err)
		}
	}
	if len(want) != len(got) {
		return failf("%d records read, %d written", len(got), len(want))
	}
	return nil
}

func c20Run(c c20Case, r *Rec) error {
	dir, clean := scratch()
	defer clean()
	total := 0
	for _, f := range c.Files {
		total += len(f.Records)
		path := f.write(dir)
		for i := 0; i < 2; i++ {
			if err := sameRecords(f.Records, collect(cache.OpenSimFile(path))); err != nil {
				return fmt.Errorf("%s: %w", f.Name, err)
			}
		}
		r.Class(filepath.Ext(f.Name))
		if len(f.Order) > 0 {
			r.Class("reordered-columns")
		}
		if len(f.Records) > 1024 {
			r.Class("more-than-the-buffer")
		}
	}
	if !c.Single {
		for _, name := range c.Others {
			if strings.HasSuffix(name, "/") {
				if err := os.Mkdir(filepath.Join(dir, name), 0o755); err != nil {
					panic(err)
				}
				continue
			}
			// would be read as a trace if it were not ignored
			if err := os.WriteFile(filepath.Join(dir, name), []byte(traceFile{Records: []cache.CSVRecord{{Filename: 77}}}.text()), 0o644); err != nil {
				panic(err)
			}
			r.Class("other-files")
		}
		sorted := append([]traceFile{}, c.Files...)
		sort.Slice(sorted, func(i, j int) bool { return sorted[i].Name < sorted[j].Name })
		want := []cache.CSVRecord{}
		for _, f := range sorted {
			want = append(want, f.Records...)
		}
		folder, err := os.Open(dir)
		if err != nil {
			panic(err)
		}
		defer folder.Close()
		if err := sameRecords(want, collect(cache.OpenSimFolder(folder))); err != nil {
			return fmt.Errorf("folder: %w", err)
		}
		r.Class("folder")
	}
	if total > 1 {
		r.NonTrivial()
	}
	return nil
}

func TestC20_Read(t *testing.T) {
	runSpec(t, Spec[c20Case]{
		Prop: "C20", Name: "Read",
		Rule:     "generated trace files (plain and gzip, any column order, extra column, quoting, line ends, number styles) read one by one and as a folder among other files; non-trivial: at least two records",
		Quick:    1200,
		Thorough: 6000,
		Gen: func(rt *rapid.T) c20Case {
			c := c20Case{Single: rapid.IntRange(0, 3).Draw(rt, "single") == 0}
			n := 1
			if !c.Single {
				n = rapid.IntRange(0, 4).Draw(rt, "files")
			}
			stems := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-zA-Z0-9_][a-zA-Z0-9_-]{0,6}`), n+2, n+2, strings.ToLower).Draw(rt, "stems")
			for i := 0; i < n; i++ {
				name := stems[i] + rapid.SampledFrom([]string{".csv", ".csv.gz", ".gz", ".gzip", ".csv.gzip"}).Draw(rt, "ext")
				recs := sliceOf(rt, "records", recGen(), 0, 1, 3, 8)
				if rapid.IntRange(0, 60).Draw(rt, "long") == 0 && len(recs) > 0 {
					// more records than the reader buffers
					for len(recs) < 1300 {
						next := recs[len(recs)%7%len(recs)]
						next.JobID = int64(len(recs))
						recs = append(recs, next)
					}
				}
				c.Files = append(c.Files, traceFileGen(rt, name, recs))
			}
			if !c.Single {
				for i := 0; i < rapid.IntRange(0, 2).Draw(rt, "others"); i++ {
					c.Others = append(c.Others, stems[n+i]+rapid.SampledFrom([]string{".txt", ".json", "", ".csv.bak", ".CSV", ".zip", "/"}).Draw(rt, "otherExt"))
				}
			}
			return c
		},
		Run: c20Run,
	})
}
