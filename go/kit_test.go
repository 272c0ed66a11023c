//go:build go1.21

// Package zverif holds the property checks; it is compiled inside the
// simulator module through a build overlay (see run.py).
package zverif

import (
	"compress/gzip"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what one executed case did.
type Rec struct {
	classes    map[string]bool
	nontrivial bool
	known      map[string]string
}

func newRec() *Rec { return &Rec{classes: map[string]bool{}, known: map[string]string{}} }

// Class marks that the case exercised the named behaviour.
func (r *Rec) Class(name string) { r.classes[name] = true }

// NonTrivial marks the case as non-trivial by the rule of its test.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// Is reports whether a class was reached.
func (r *Rec) Is(name string) bool { return r.classes[name] }

type failRecord struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Seed     string          `json:"seed"`
	Error    string          `json:"error"`
	Key      string          `json:"key,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type testStats struct {
	Test        string            `json:"test"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Hashes      []string          `json:"hashes"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Known       map[string]string `json:"known"`
	Failed      bool              `json:"failed"`
	Truncated   bool              `json:"truncated"`
}

// finding is a violation identified by a key of the known-findings file.
type finding struct {
	key string
	msg string
}

func (f finding) Error() string { return f.msg }

var (
	outDir    = os.Getenv("VERIF_OUT")
	tier      = os.Getenv("VERIF_TIER")
	caseStart atomic.Int64 // unix nano of the running case, 0 when idle
	knownKeys = map[string]bool{}
	deadline  time.Time
)

const (
	caseTimeout = 100 * time.Second
	heapLimit   = 3 << 30
	abortCode   = 77
)

func thorough() bool { return tier == "thorough" }

func envFloat(name string, def float64) float64 {
	v, err := strconv.ParseFloat(os.Getenv(name), 64)
	if err != nil {
		return def
	}
	return v
}

func TestMain(m *testing.M) {
	flag.Parse()
	if outDir == "" {
		dir, err := os.MkdirTemp("", "zverif")
		if err != nil {
			panic(err)
		}
		outDir = dir
	}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" {
			knownKeys[k] = true
		}
	}
	debug.SetGCPercent(200)
	deadline = time.Now().Add(time.Duration(envFloat("VERIF_BUDGET", 300) * float64(time.Second)))
	go watchdog()
	os.Exit(m.Run())
}

func watchdog() {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		started := caseStart.Load()
		if started != 0 && time.Since(time.Unix(0, started)) > caseTimeout {
			abort(fmt.Sprintf("the case did not finish within %v", caseTimeout))
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			abort(fmt.Sprintf("the case uses more than %d bytes of heap", int64(heapLimit)))
		}
	}
}

func abort(reason string) {
	_ = os.WriteFile(filepath.Join(outDir, "abort.json"), []byte(fmt.Sprintf("{\"reason\":%q}", reason)), 0o644)
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(os.Stderr, "ABORT: %s\n%s\n", reason, buf[:n])
	os.Exit(abortCode)
}

// scratch returns a fresh empty directory for one case, removed by clean.
func scratch() (dir string, clean func()) {
	dir, err := os.MkdirTemp(outDir, "case")
	if err != nil {
		panic(err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

func safely(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			// keep the frames after the panic call
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			lines := strings.Split(st, "\n")
			if len(lines) > 14 {
				lines = lines[:14]
			}
			err = fmt.Errorf("panic: %v\n%s", p, strings.Join(lines, "\n"))
		}
	}()
	return f()
}

// Spec describes one generated-input test.
type Spec[C any] struct {
	Prop     string // property id
	Name     string // sub-check name, unique in the property
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // cases per worker, quick tier
	Thorough int    // cases per worker, thorough tier
	Gen      func(*rapid.T) C
	Run      func(C, *Rec) error
	// Fixed are cases executed before the generated ones.
	Fixed []C
}

func runSpec[C any](t *testing.T, s Spec[C]) {
	full := s.Prop + "/" + s.Name
	stats := testStats{Test: full, Rule: s.Rule, Classes: map[string]int{}, Known: map[string]string{}}
	hashes := map[uint64]bool{}
	seed := flag.Lookup("rapid.seed").Value.String()

	finish := func() {
		for h := range hashes {
			stats.Hashes = append(stats.Hashes, strconv.FormatUint(h, 16))
		}
		sort.Strings(stats.Hashes)
		data, _ := json.Marshal(stats)
		_ = os.WriteFile(filepath.Join(outDir, "stats-"+s.Name+".json"), data, 0o644)
	}
	defer finish()

	exec := func(c C, count bool) error {
		raw, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("case of %s cannot be serialised: %v", full, err))
		}
		cur, _ := json.Marshal(failRecord{Property: s.Prop, Test: full, Seed: seed, Case: raw, Error: "the process died while running this case"})
		_ = os.WriteFile(filepath.Join(outDir, "current.json"), cur, 0o644)
		rec := newRec()
		caseStart.Store(time.Now().UnixNano())
		run := c
		if h, ok := any(c).(interface{ expanded(*Rec) any }); ok {
			run = h.expanded(rec).(C)
		}
		err = safely(func() error { return s.Run(run, rec) })
		caseStart.Store(0)
		if f, ok := err.(finding); ok && knownKeys[f.key] {
			rec.known[f.key] = f.msg
			err = nil
		}
		for k, v := range rec.known {
			stats.Known[k] = v
		}
		if count {
			stats.Evaluations++
			for k := range rec.classes {
				stats.Classes[k]++
			}
			if rec.nontrivial {
				h := fnv.New64a()
				_, _ = h.Write(raw)
				if v := h.Sum64(); !hashes[v] {
					hashes[v] = true
					stats.Nontrivial++
					if len(stats.Samples) < 2 && len(raw) < 6000 {
						stats.Samples = append(stats.Samples, raw)
					}
				}
			}
		}
		if err != nil {
			stats.Failed = true
			key := ""
			if f, ok := err.(finding); ok {
				key = f.key
			}
			fr, _ := json.Marshal(failRecord{Property: s.Prop, Test: full, Seed: seed, Error: err.Error(), Key: key, Case: raw})
			_ = os.WriteFile(filepath.Join(outDir, "fail-"+s.Name+".json"), fr, 0o644)
		}
		return err
	}

	if file := os.Getenv("VERIF_REPLAY"); file != "" {
		fr, c := loadCase[C](t, file, full)
		if fr == nil {
			t.Skip("the replay file is for another test")
		}
		if err := exec(c, true); err != nil {
			t.Fatalf("REPRODUCED %s: %v", full, err)
		}
		return
	}

	for i, c := range s.Fixed {
		if err := exec(c, true); err != nil {
			t.Fatalf("fixed case %d: %v", i, err)
		}
	}
	if dir := os.Getenv("VERIF_CORPUS"); dir != "" {
		names, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		sort.Strings(names)
		for _, name := range names {
			fr, c := loadCase[C](t, name, full)
			if fr == nil {
				continue
			}
			if err := exec(c, true); err != nil {
				t.Fatalf("corpus case %s: %v", filepath.Base(name), err)
			}
		}
	}

	n := s.Quick
	if thorough() {
		n = s.Thorough
	}
	n = int(float64(n) * envFloat("VERIF_SCALE", 1))
	if n < 1 {
		n = 1
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	rapid.Check(t, func(rt *rapid.T) {
		if time.Now().After(deadline) && !stats.Failed {
			stats.Truncated = true
			return
		}
		c := s.Gen(rt)
		if h, ok := any(&c).(interface{ stretch(*rapid.T) }); ok {
			h.stretch(rt)
		}
		if err := exec(c, !stats.Failed); err != nil {
			rt.Fatalf("%v", err)
		}
	})
}

func loadCase[C any](t *testing.T, file, full string) (*failRecord, C) {
	var c C
	data, err := os.ReadFile(file)
	if err != nil {
		t.Fatalf("cannot read %s: %v", file, err)
	}
	var fr failRecord
	if err := json.Unmarshal(data, &fr); err != nil {
		t.Fatalf("cannot parse %s: %v", file, err)
	}
	if fr.Test != full {
		return nil, c
	}
	if err := json.Unmarshal(fr.Case, &c); err != nil {
		t.Fatalf("cannot parse the case of %s: %v", file, err)
	}
	return &fr, c
}

// drawLen draws a slice length bound so that short and long sequences both occur.
func drawLen(rt *rapid.T, label string, choices ...int) int {
	return rapid.SampledFrom(choices).Draw(rt, label)
}

// sliceOf draws a slice whose minimum length is one of the given choices.
func sliceOf[V any](rt *rapid.T, label string, g *rapid.Generator[V], choices ...int) []V {
	min := drawLen(rt, label+"Len", choices...)
	return rapid.SliceOfN(g, min, 2*min+6).Draw(rt, label)
}

func failf(format string, args ...any) error { return fmt.Errorf(format, args...) }

// writeMembers compresses data; a gzip file may consist of several members, as the
// concatenation of compressed files does.
func writeMembers(w io.Writer, data []byte) {
	cuts := []int{len(data)}
	if len(data)%3 == 1 {
		cuts = []int{len(data) / 2, len(data)}
	}
	from := 0
	for _, to := range cuts {
		z := gzip.NewWriter(w)
		if _, err := z.Write(data[from:to]); err != nil {
			panic(err)
		}
		if err := z.Close(); err != nil {
			panic(err)
		}
		from = to
	}
}
