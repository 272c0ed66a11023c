//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"simulator/v2/cache"
)

// Generated trace files.

var traceColumns = strings.Split("Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process", ",")

// fields renders a record by column name.
func fields(r cache.CSVRecord, style int) map[string]string {
	i := func(v int64) string { return strconv.FormatInt(v, 10) }
	f := func(v float64) string {
		switch style % 3 {
		case 1:
			return strconv.FormatFloat(v, 'f', -1, 64)
		case 2:
			return strconv.FormatFloat(v, 'e', -1, 64)
		}
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	day := i(r.Day)
	if style%2 == 1 {
		day += ".0"
	}
	ok := [][]string{{"false", "true"}, {"False", "True"}, {"0", "1"}, {"FALSE", "TRUE"}}[style%4]
	success := ok[0]
	if r.JobSuccess {
		success = ok[1]
	}
	return map[string]string{
		"Filename": i(r.Filename), "SiteName": i(r.SiteName), "UserID": i(r.UserID), "TaskID": i(r.TaskID),
		"TaskMonitorID": i(r.TaskMonitorID), "JobID": i(r.JobID), "Protocol": i(r.Protocol), "JobExecExitCode": i(r.JobExecExitCode),
		"JobStart": i(r.JobStart), "JobEnd": i(r.JobEnd), "NumCPU": i(r.NumCPU), "WrapWC": f(r.WrapWC), "WrapCPU": f(r.WrapCPU),
		"Size": f(r.Size), "DataType": i(r.DataType), "FileType": i(r.FileType), "JobLengthH": f(r.JobLengthH), "JobLengthM": f(r.JobLengthM),
		"JobSuccess": success, "CPUTime": f(r.CPUTime), "IOTime": f(r.IOTime), "reqDay": day, "Region": i(r.Region),
		"Campaign": i(r.Campaign), "Process": i(r.Process),
	}
}

// traceFile is one generated file of a trace.
type traceFile struct {
	Name    string            `json:"name"`
	Order   []int             `json:"order,omitempty"`  // column order, empty for the standard one
	Extra   bool              `json:"extra,omitempty"`  // an unknown column
	Column  string            `json:"column,omitempty"` // its name
	At      int               `json:"at,omitempty"`     // its position
	CRLF    bool              `json:"crlf,omitempty"`
	Quote   bool              `json:"quote,omitempty"`
	Style   int               `json:"style,omitempty"`
	Records []cache.CSVRecord `json:"records"`
}

func (t traceFile) text() string {
	eol := "\n"
	if t.CRLF {
		eol = "\r\n"
	}
	order := t.Order
	if len(order) == 0 {
		order = make([]int, len(traceColumns))
		for i := range order {
			order[i] = i
		}
	}
	var sb strings.Builder
	row := func(get func(string) string, extra string) {
		cells := []string{}
		for n, c := range order {
			if t.Extra && n == t.At {
				cells = append(cells, extra)
			}
			v := get(traceColumns[c])
			if t.Quote {
				v = "\"" + v + "\""
			}
			cells = append(cells, v)
		}
		sb.WriteString(strings.Join(cells, ",") + eol)
	}
	name := t.Column
	if name == "" {
		name = "Comment"
	}
	row(func(c string) string { return c }, name)
	for n, r := range t.Records {
		fs := fields(r, t.Style+n*(t.Style%2))
		row(func(c string) string { return fs[c] }, "99")
	}
	return sb.String()
}

func (t traceFile) write(dir string) string {
	path := filepath.Join(dir, t.Name)
	writeText(path, t.text())
	return path
}

func anyInt() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.Int64Range(0, 40), rapid.Int64Range(-3, 1<<33), rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, 0, -1}))
}

func anyFloat() *rapid.Generator[float64] {
	return rapid.OneOf(rapid.Float64Range(0, 1e6), rapid.Map(rapid.IntRange(0, 10000), func(i int) float64 { return float64(i) / 8 }), rapid.SampledFrom([]float64{0, -1, 1e-9, 3.5e12}))
}

// recGen draws a record with every field set at random.
func recGen() *rapid.Generator[cache.CSVRecord] {
	return rapid.Custom(func(rt *rapid.T) cache.CSVRecord {
		i, f := anyInt(), anyFloat()
		r := cache.CSVRecord{
			Filename: i.Draw(rt, "Filename"), SiteName: i.Draw(rt, "SiteName"), UserID: i.Draw(rt, "UserID"), TaskID: i.Draw(rt, "TaskID"),
			TaskMonitorID: i.Draw(rt, "TaskMonitorID"), JobID: i.Draw(rt, "JobID"), Protocol: i.Draw(rt, "Protocol"), JobExecExitCode: i.Draw(rt, "JobExecExitCode"),
			JobStart: i.Draw(rt, "JobStart"), JobEnd: i.Draw(rt, "JobEnd"), NumCPU: i.Draw(rt, "NumCPU"), WrapWC: f.Draw(rt, "WrapWC"), WrapCPU: f.Draw(rt, "WrapCPU"),
			Size: f.Draw(rt, "Size"), DataType: i.Draw(rt, "DataType"), FileType: i.Draw(rt, "FileType"), JobLengthH: f.Draw(rt, "JobLengthH"), JobLengthM: f.Draw(rt, "JobLengthM"),
			JobSuccess: rapid.Bool().Draw(rt, "JobSuccess"), CPUTime: f.Draw(rt, "CPUTime"), IOTime: f.Draw(rt, "IOTime"),
			Day: rapid.Int64Range(0, 4e9).Draw(rt, "Day"), Region: i.Draw(rt, "Region"), Campaign: i.Draw(rt, "Campaign"), Process: i.Draw(rt, "Process"),
		}
		r.SizeM = r.Size / (1 << 20)
		return r
	})
}

func traceFileGen(rt *rapid.T, name string, recs []cache.CSVRecord) traceFile {
	t := traceFile{Name: name, Records: recs, CRLF: rapid.IntRange(0, 5).Draw(rt, "crlf") == 0, Quote: rapid.IntRange(0, 5).Draw(rt, "quote") == 0,
		Style: rapid.IntRange(0, 11).Draw(rt, "style"), Extra: rapid.IntRange(0, 4).Draw(rt, "extra") == 0}
	if t.Extra {
		t.At = rapid.IntRange(0, len(traceColumns)-1).Draw(rt, "at")
		if rapid.Bool().Draw(rt, "similar") {
			// the names of the columns are told apart exactly
			t.Column = rapid.SampledFrom(traceColumns).Draw(rt, "column")
			switch rapid.IntRange(0, 3).Draw(rt, "similarity") {
			case 0:
				t.Column = strings.ToLower(t.Column)
			case 1:
				t.Column = strings.ToUpper(t.Column)
			case 2:
				t.Column += "2"
			case 3:
				t.Column = "x" + t.Column
			}
			for _, c := range traceColumns {
				if c == t.Column {
					t.Column = ""
				}
			}
		}
	}
	switch rapid.IntRange(0, 2).Draw(rt, "columns") {
	case 1: // rotated
		k := rapid.IntRange(1, len(traceColumns)-1).Draw(rt, "rotate")
		for i := range traceColumns {
			t.Order = append(t.Order, (i+k)%len(traceColumns))
		}
	case 2:
		for i := range traceColumns {
			t.Order = append(t.Order, i)
		}
		t.Order = rapid.Permutation(t.Order).Draw(rt, "order")
	}
	return t
}

// buried are the directories of past cases, removed some time later: a run that
// stopped before the end of its trace leaves a reader behind that may still open
// the next file of the folder.
var buried []func(time.Time) bool

func bury(clean func()) {
	died := time.Now()
	buried = append(buried, func(now time.Time) bool {
		if now.Sub(died) < 20*time.Second {
			return false
		}
		clean()
		return true
	})
	for len(buried) > 0 && buried[0](died) {
		buried = buried[1:]
	}
}

// inDir runs f with the working directory set to a scratch directory.
func inDir(f func(dir string) error) error {
	dir, clean := scratch()
	defer bury(clean)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer func() {
		if err := os.Chdir(old); err != nil {
			panic(err)
		}
	}()
	return f(dir)
}

func recDiff(want, got cache.CSVRecord) error {
	if want != got {
		return fmt.Errorf("read %+v, the file says %+v", got, want)
	}
	return nil
}
