//go:build go1.21

package zverif

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// C26: the command line against a cache driven by a direct reading of the
// configuration and of the trace.

type cliRun struct {
	Reqs      []simReq `json:"reqs"`
	Split     []int    `json:"split,omitempty"`
	Gz        bool     `json:"gz,omitempty"`
	Size      int      `json:"size"`
	Start     int      `json:"start"`
	Stop      int      `json:"stop"`
	Dump      bool     `json:"dump,omitempty"`
	NoFiles   bool     `json:"noFiles,omitempty"`
	Load      bool     `json:"load,omitempty"`
	Cold      bool     `json:"cold,omitempty"`
	NoStats   bool     `json:"noStats,omitempty"`
	Overwrite bool     `json:"overwrite,omitempty"`
	AbsData   bool     `json:"absData,omitempty"`
	RelConf   bool     `json:"relConf,omitempty"` // the configuration is named relative to the working directory
}

type cliCase struct {
	Cfg      Cfg       `json:"cfg"`
	Unit     string    `json:"unit"`
	Sizes    []float64 `json:"sizes"`
	Runs     []cliRun  `json:"runs"`
	Omit     uint32    `json:"omit"` // settings equal to their default that are left out
	Out      string    `json:"out"`  // rel, abs, none
	Normal   bool      `json:"normal,omitempty"`
	DumpName string    `json:"dumpName,omitempty"`
	Conf     string    `json:"conf"`
	Decoy    string    `json:"decoy,omitempty"`
	Model    bool      `json:"model,omitempty"`
	// general exploration settings; the agents' own ones are in Cfg.RL
	Eps      float64 `json:"eps,omitempty"`
	Decay    float64 `json:"decay,omitempty"`
	Unleash  bool    `json:"unleash,omitempty"`
	OwnAdd   int     `json:"ownAdd,omitempty"` // bits: start, decay, unleash of the addition agent
	OwnEvict int     `json:"ownEvict,omitempty"`
}

// yamlNode keeps the order of its keys.
type yamlNode struct {
	keys []string
	vals map[string]any
}

func (n *yamlNode) set(path string, v any) {
	head, rest, nested := strings.Cut(path, ".")
	if n.vals == nil {
		n.vals = map[string]any{}
	}
	if _, in := n.vals[head]; !in {
		n.keys = append(n.keys, head)
	}
	if !nested {
		n.vals[head] = v
		return
	}
	child, ok := n.vals[head].(*yamlNode)
	if !ok {
		child = &yamlNode{}
		n.vals[head] = child
	}
	child.set(rest, v)
}

func (n *yamlNode) text(indent string) string {
	var sb strings.Builder
	for _, k := range n.keys {
		switch v := n.vals[k].(type) {
		case *yamlNode:
			sb.WriteString(indent + k + ":\n" + v.text(indent+"  "))
		case float64:
			sb.WriteString(indent + k + ": " + strconv.FormatFloat(v, 'g', -1, 64) + "\n")
		default:
			sb.WriteString(fmt.Sprintf("%s%s: %v\n", indent, k, v))
		}
	}
	return sb.String()
}

var unitPower = map[string]int{"M": 0, "G": 1, "T": 2, "P": 3}

// effective is the configuration of the cache: the agents use the general
// exploration settings unless they have their own.
func (c cliCase) effective() Cfg {
	cfg := c.Cfg
	if cfg.Region == "all" {
		cfg.Region = ""
	}
	if cfg.RL != nil {
		rl := *cfg.RL
		if c.OwnAdd&1 == 0 {
			rl.AddEps = c.Eps
		}
		if c.OwnAdd&2 == 0 {
			rl.AddDecay = c.Decay
		}
		rl.AddUnleash = c.Unleash || c.OwnAdd&4 != 0 && rl.AddUnleash
		if c.OwnEvict&1 == 0 {
			rl.EvEps = c.Eps
		}
		if c.OwnEvict&2 == 0 {
			rl.EvDecay = c.Decay
		}
		rl.EvUnleash = c.Unleash || c.OwnEvict&4 != 0 && rl.EvUnleash
		cfg.RL = &rl
	}
	return cfg
}

// yaml writes the configuration of one run.
func (c cliCase) yaml(r cliRun, data, dir string) string {
	root, bit := &yamlNode{}, 0
	set := func(path string, v, def any) {
		omit := c.Omit>>(bit%32)&1 == 1
		bit++
		if def != nil && reflect.DeepEqual(v, def) && omit {
			return
		}
		root.set("sim."+path, v)
	}
	set("data", data, nil)
	switch c.Out {
	case "rel":
		set("outputFolder", "../results", nil)
	case "abs":
		set("outputFolder", filepath.Join(dir, "results"), nil)
	}
	if c.Normal {
		set("type", "normal", nil)
	}
	set("region", c.Cfg.Region, "all")
	set("overwrite", r.Overwrite, false)
	set("window.size", r.Size, 7)
	set("window.start", r.Start, 0)
	set("window.stop", r.Stop, nil)
	set("dump", r.Dump, false)
	set("dumpfilesandstats", !r.NoFiles, true)
	if c.DumpName != "" {
		set("dumpfilename", c.dumpPath(dir, ""), nil)
		set("loaddumpfilename", c.dumpPath(dir, ""), nil)
	}
	set("loaddump", r.Load, false)
	set("coldstart", r.Cold, false)
	set("coldstartnostats", r.NoStats, false)
	set("log", c.Cfg.Log, false)
	set("seed", c.Cfg.Seed, int64(42))
	set("cache.type", c.Cfg.Type, nil)
	power := unitPower[strings.ToUpper(c.Unit)]
	set("cache.size.value", c.Cfg.Cap/float64(int64(1)<<(10*power)), 100.)
	set("cache.size.unit", c.Unit, "T")
	set("cache.watermarks", c.Cfg.WM, false)
	set("cache.watermark.high", c.Cfg.High, 95.)
	set("cache.watermark.low", c.Cfg.Low, 75.)
	set("cache.bandwidth.value", c.Cfg.BW, 10.)
	set("cache.bandwidth.redirect", c.Cfg.Redirect, false)
	set("cache.stats.maxNumDayDiff", c.Cfg.MaxDiff, 6.)
	set("cache.stats.deltaDaysStep", c.Cfg.Step, 7.)
	switch c.Cfg.Type {
	case "weightFunLRU":
		set("weightfunc.name", c.Cfg.WFun, "FuncAdditiveExp")
		set("weightfunc.alpha", c.Cfg.A, 1.)
		set("weightfunc.beta", c.Cfg.B, 1.)
		set("weightfunc.gamma", c.Cfg.G, 1.)
	case "lruDatasetVerifier":
		set("ai.dataset2TestPath", "../dataset.json.gz", nil)
	case "aiNN":
		set("ai.featuremap", "../nnmap.json", nil)
		if c.Model {
			set("ai.model", "../model.json", nil)
		}
	case "aiRL":
		rl := c.Cfg.RL
		set("ai.rl.type", rl.Type, "SCDL2")
		set("ai.rl.epsilon.start", c.Eps, 1.)
		set("ai.rl.epsilon.decay", c.Decay, 0.0000042)
		set("ai.rl.epsilon.unleash", c.Unleash, true)
		if len(rl.Add) > 0 {
			set("ai.rl.addition.featuremap", "../add.json", nil)
		}
		if len(rl.Evict) > 0 {
			set("ai.rl.eviction.featuremap", filepath.Join(dir, "evict.json.gz"), nil)
			set("ai.rl.eviction.k", rl.K, int64(32))
			set("ai.rl.eviction.type", rl.EvType, "onK")
		} else {
			set("ai.rl.eviction.type", "none", nil)
		}
		for name, own := range map[string]int{"addition": c.OwnAdd, "eviction": c.OwnEvict} {
			eps, decay, unleash := rl.AddEps, rl.AddDecay, rl.AddUnleash
			if name == "eviction" {
				eps, decay, unleash = rl.EvEps, rl.EvDecay, rl.EvUnleash
			}
			if own&1 != 0 {
				root.set("sim.ai.rl."+name+".epsilon.start", eps)
			}
			if own&2 != 0 {
				root.set("sim.ai.rl."+name+".epsilon.decay", decay)
			}
			if own&4 != 0 {
				root.set("sim.ai.rl."+name+".epsilon.unleash", unleash)
			}
		}
	}
	return "--- # Simulation parameters\n" + root.text("")
}

// dumpPath is where the dump is written, below the folder of the run or in one of its own.
func (c cliCase) dumpPath(dir, folder string) string {
	if c.DumpName == "own" {
		return filepath.Join(dir, "dumps", "state.json.gz")
	}
	if c.DumpName == "" {
		return filepath.Join(folder, "cache_dump.json.gz")
	}
	return filepath.Join(folder, c.DumpName)
}

// folder is where a run writes.
func (c cliCase) folder(dir string) string {
	base := filepath.Join(dir, "results")
	if c.Out == "none" {
		base = filepath.Join(dir, "conf")
	}
	if !c.Normal {
		return filepath.Join(dir, "conf")
	}
	value := c.Cfg.Cap / float64(int64(1)<<(10*unitPower[strings.ToUpper(c.Unit)]))
	rest := []string{strconv.FormatFloat(value, 'f', 0, 64) + strings.ToUpper(c.Unit), strconv.FormatFloat(c.Cfg.BW, 'f', 0, 64) + "Gbit", c.Cfg.Region}
	parts := []string{c.Cfg.Type}
	switch c.Cfg.Type {
	case "weightFunLRU":
		two := func(v float64) string { return strconv.FormatFloat(v, 'f', 2, 64) }
		parts, rest = append(parts, c.Cfg.WFun), []string{two(c.Cfg.A), two(c.Cfg.B), two(c.Cfg.G)}
	case "aiRL":
		kind := c.Cfg.RL.Type
		if kind == "SCDL2" {
			ev := c.Cfg.RL.EvType
			if len(c.Cfg.RL.Evict) == 0 {
				ev = "none"
			}
			kind += "-" + ev
		}
		parts = append(parts, kind)
	}
	return filepath.Join(base, "run_full_normal", strings.Join(append(parts, rest...), "_"))
}

func gunzip(path string) ([]byte, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

func fileText(path string) string {
	data, err := os.ReadFile(path)
	if err != nil {
		return "no file"
	}
	return string(data)
}

// contents reads every file of a folder.
func contents(dir string) map[string]string {
	res := map[string]string{}
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		if data, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil && !e.IsDir() {
			res[e.Name()] = string(data)
		}
	}
	return res
}

func sameDumps(cfg Cfg, want, got [][]byte) error {
	a, b := parseDump(want), parseDump(got)
	if err := sameStats(a.Held, b.Held); err != nil {
		return fmt.Errorf("files held: %w", err)
	}
	if err := sameStats(a.Stats, b.Stats); err != nil {
		return fmt.Errorf("statistics: %w", err)
	}
	if isDeterministic(cfg) && !slices.Equal(a.order(), b.order()) {
		return failf("files in the order %v, should be %v", b.order(), a.order())
	}
	if !reflect.DeepEqual(a.Others, b.Others) {
		return failf("the other records are %v, should be %v", b.Others, a.Others)
	}
	return nil
}

// sameTable compares a saved Q-table with the values the agent was dumped with.
func sameTable(text, agent string) error {
	var dumped struct {
		QTable struct {
			Actions [][]float64 `json:"actions"`
		} `json:"qtable"`
	}
	if err := json.Unmarshal([]byte(agent), &dumped); err != nil {
		panic(err)
	}
	lines := strings.Split(text, "\n")
	if len(lines) != len(dumped.QTable.Actions)+1 {
		return failf("%d lines for %d states", len(lines), len(dumped.QTable.Actions))
	}
	for i, vals := range dumped.QTable.Actions {
		row := ""
		for _, v := range vals {
			row += fmt.Sprintf("%09.2f,", v)
		}
		if !strings.HasPrefix(lines[i+1]+",", row) {
			return failf("state %d is %q, its values are %v", i, lines[i+1], vals)
		}
	}
	return nil
}

func c26Run(c cliCase, r *Rec) error {
	cli := os.Getenv("VERIF_CLI")
	if cli == "" {
		panic("VERIF_CLI is not set")
	}
	return inDir(func(dir string) error {
		cfg := c.effective()
		conf, twinDir := filepath.Join(dir, "conf"), filepath.Join(dir, "twin")
		for _, d := range []string{conf, twinDir, filepath.Join(dir, "dumps")} {
			if err := os.Mkdir(d, 0o755); err != nil {
				panic(err)
			}
		}
		initParams(cfg, dir) // writes the files of the configuration
		if c.Model {
			writeJSON(filepath.Join(dir, "model.json"), nnCase{Layers: []nnLayer{{W: [][]float64{{1}}, B: []float64{0}, Act: "sigmoid"}}}.file())
		}
		folder := c.folder(dir)
		dumpPath := c.dumpPath(dir, folder)
		now := day0
		var dumped [][]byte // what the dump file holds
		hasDump, runs, renamed := false, 0, []string{}
		lastRows := -1
		for i, run := range c.Runs {
			recs := simRecords(run.Reqs, c.Sizes, now)
			now = recs[len(recs)-1].Day + 86400
			if run.Load && (!hasDump || !run.Overwrite || lastRows < 0) {
				run.Load = false
			}
			before, beforeDump := contents(folder), fileText(dumpPath)
			skip := !run.Overwrite && lastRows >= 2
			if !run.Overwrite && !skip && lastRows >= 0 && (lastRows > 0 || cfg.Type == "aiRL") {
				run.Overwrite = true // too short to tell whether it is finished
			}
			dataDir := filepath.Join(dir, fmt.Sprintf("data%d", i))
			if err := os.Mkdir(dataDir, 0o755); err != nil {
				panic(err)
			}
			data := writeTrace(dataDir, recs, run.Split, run.Gz)
			if !run.AbsData {
				rel, err := filepath.Rel(conf, data)
				if err != nil {
					panic(err)
				}
				data = rel
			}
			writeText(filepath.Join(conf, c.Conf), c.yaml(run, data, dir))
			if c.Decoy != "" {
				writeText(filepath.Join(conf, c.Decoy), "sim: {}\n")
			}
			arg, cwd := filepath.Join(conf, c.Conf), dir
			if run.RelConf {
				arg = filepath.Join("conf", c.Conf)
			}
			out, err := runCLI(cli, cwd, "sim", arg)
			if err != nil {
				return failf("run %d: %v\n%s", i, err, out)
			}
			if skip {
				after := contents(folder)
				for name, text := range before {
					if name != c.Conf && name != c.Decoy && after[name] != text {
						return failf("run %d: %s of a finished run was changed without asking", i, name)
					}
				}
				r.Class("not-overwritten")
				continue
			}

			// the reference
			if err := os.Chdir(twinDir); err != nil {
				panic(err)
			}
			twin := makeCache(cfg, twinDir)
			if run.Load {
				if cfg.Type == "aiRL" {
					twin.Loads(dumped, c.Eps, c.Decay)
				} else {
					twin.Loads(dumped)
				}
				switch {
				case run.Cold && run.NoStats:
					twin.Clear()
					r.Class("cold-start-no-stats")
				case run.Cold:
					twin.ClearFiles()
					r.Class("cold-start")
				default:
					if n := len(snapOf(twin).Held); n > 0 {
						r.Class("hot-start")
					}
				}
			}
			datas, filter := "", ""
			switch cfg.Region {
			case "us":
				datas, filter = "UsDataMcTypes", "UsMINIAODNOT1andT3"
			case "it":
				datas = "ItDataMcTypes"
			}
			want := follow(cfg, twin, recs, run.Size, run.Start, run.Stop, datas, filter)
			records := twin.Dumps(!run.NoFiles)
			if cfg.Type == "aiRL" {
				twin.ExtraOutput("additionQTable")
				twin.ExtraOutput("evictionQTable")
			}
			_ = twin.Terminate()
			if err := os.Chdir(dir); err != nil {
				panic(err)
			}

			after := contents(folder)
			where := func(err error) error { return fmt.Errorf("run %d: %w\n%s", i, err, c.yaml(run, data, dir)) }
			if err := want.compare(cfg.Type, filepath.Join(folder, "simulation_results.csv"), filepath.Join(folder, "simulation_run_stats.json")); err != nil {
				return where(err)
			}
			if run.Dump {
				raw, err := gunzip(dumpPath)
				if err != nil {
					return where(failf("no dump: %v", err))
				}
				got := [][]byte{}
				for _, line := range bytes.Split(raw, []byte("\n")) {
					if len(line) > 0 {
						got = append(got, line)
					}
				}
				if err := sameDumps(cfg, records, got); err != nil {
					return where(fmt.Errorf("dump: %w", err))
				}
				dumped, hasDump = got, true
				r.Class("dump")
			} else if beforeDump != fileText(dumpPath) {
				return where(failf("a dump was written that was not asked for"))
			}
			if cfg.Log {
				a, err := gunzip(filepath.Join(folder, "simulationLogFile.csv.gz"))
				if err != nil {
					return where(failf("no log: %v", err))
				}
				b, err := gunzip(filepath.Join(twinDir, "simulationLogFile.csv.gz"))
				if err != nil {
					panic(err)
				}
				if string(a) != string(b) {
					return where(failf("the log is\n%s\nshould be\n%s", a, b))
				}
				r.Class("log")
			}
			if cfg.Type == "aiRL" {
				for name, text := range contents(twinDir) {
					if strings.HasSuffix(name, "QTable.csv") && after[name] != text {
						return where(failf("%s is\n%s\nshould be\n%s", name, after[name], text))
					}
				}
				others := parseDump(records).Others
				for name, record := range map[string]string{"additionQTable.csv": "ADDAGENT", "evictionQTable.csv": "EVCAGENT"} {
					text, written := after[name]
					if agent, has := others[record]; has {
						if err := sameTable(text, agent); err != nil {
							return where(fmt.Errorf("%s: %w", name, err))
						}
						r.Class("q-table")
					} else if written {
						return where(failf("%s was written without such an agent", name))
					}
				}
			}
			if run.Load {
				// the previous results are kept under a number
				name := fmt.Sprintf("simulation_results_run-%02d.csv", len(renamed))
				if after[name] != before["simulation_results.csv"] {
					return where(failf("the previous results are not kept in %s", name))
				}
				for _, old := range renamed {
					if after[old] != before[old] {
						return where(failf("the results in %s were lost", old))
					}
				}
				renamed = append(renamed, name)
			}
			lastRows = len(want.rows)
			runs++
			want.classes(r)
		}
		r.Class(cfg.Type)
		if runs > 1 {
			r.Class("several-runs")
		}
		return nil
	})
}

// runCLI runs the simulator's command.
func runCLI(cli, cwd string, args ...string) (string, error) {
	cmd := exec.Command(cli, args...)
	cmd.Dir = cwd
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		text := out.String()
		if len(text) > 3000 {
			text = text[len(text)-1500:]
		}
		if err != nil {
			return text, fmt.Errorf("the command failed: %v", err)
		}
		return text, nil
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return "", fmt.Errorf("the command did not end within 60 s")
	}
}

func TestC26_Runs(t *testing.T) {
	runSpec(t, Spec[cliCase]{
		Prop: "C26", Name: "Runs",
		Rule:     "generated configuration files and traces, one to three consecutive runs of the command in the same folders; results, statistics, dump, log and tables against a cache driven by a direct reading; non-trivial: a closed day in the window and a record that reached the cache",
		Quick:    600,
		Thorough: 9000,
		Gen: func(rt *rapid.T) cliCase {
			types := []string{"lru", "lru", "lfu", "sizeBig", "sizeSmall", "weightFunLRU", "lruDatasetVerifier", "random_lru", "infinite", "aiNN", "aiRL", "aiRL", "aiRL"}
			c := cliCase{Cfg: anyCfg(rt, types)}
			c.Cfg.Region = rapid.SampledFrom([]string{"all", "all", "it", "us"}).Draw(rt, "region")
			c.Sizes = sizesGen(rt, 3, 6, 12, 24)
			c.Cfg.Seed = rapid.SampledFrom([]int64{42, 42, 7, 292}).Draw(rt, "seed0")
			completeCfg(rt, &c.Cfg, len(c.Sizes), false)
			if c.Cfg.Type == "infinite" {
				c.Cfg.WM, c.Cfg.Redirect = false, false
			}
			// bias towards the defaults
			def := func(label string) bool { return rapid.IntRange(0, 2).Draw(rt, label) == 0 }
			if def("defSeed") {
				c.Cfg.Seed = 42
			}
			if !c.Cfg.WM || def("defWM") {
				c.Cfg.High, c.Cfg.Low = 95, 75
			}
			if def("defStats") {
				c.Cfg.MaxDiff, c.Cfg.Step = 6, 7
			}
			if c.Cfg.Type == "weightFunLRU" {
				if def("defFun") {
					c.Cfg.WFun = "FuncAdditiveExp"
				}
				if def("defPar") {
					c.Cfg.A, c.Cfg.B, c.Cfg.G = 1, 1, 1
				}
			}
			c.Unit = rapid.SampledFrom([]string{"M", "m", "G", "g", "T", "t", "P", "p"}).Draw(rt, "unit")
			if rapid.IntRange(0, 7).Draw(rt, "defCap") == 0 {
				c.Cfg.Cap, c.Unit = 100<<20, "T"
			}
			c.Cfg.Log = rapid.IntRange(0, 3).Draw(rt, "log") == 0
			if c.Cfg.Type == "aiRL" {
				c.Eps = rapid.SampledFrom([]float64{1, 1, 0.5, 0.2}).Draw(rt, "eps")
				c.Decay = rapid.SampledFrom([]float64{0.0000042, 0.0000042, 0.01, 0.2}).Draw(rt, "decay")
				c.Unleash = rapid.Bool().Draw(rt, "unleash")
				c.OwnAdd, c.OwnEvict = rapid.IntRange(0, 7).Draw(rt, "ownAdd"), rapid.IntRange(0, 7).Draw(rt, "ownEvict")
				if def("defK") {
					c.Cfg.RL.K = 32
				}
			}
			c.Model = c.Cfg.Type == "aiNN" && rapid.Bool().Draw(rt, "model")
			c.Omit = rapid.Uint32().Draw(rt, "omit")
			c.Out = rapid.SampledFrom([]string{"rel", "rel", "abs", "none"}).Draw(rt, "out")
			c.Normal = rapid.IntRange(0, 4).Draw(rt, "normal") > 0
			c.DumpName = rapid.SampledFrom([]string{"", "", "state.json.gz", "own"}).Draw(rt, "dumpName")
			c.Conf = rapid.SampledFrom([]string{"lru.yml", "sim.yaml", "my.sim.yml", "run_01.yml"}).Draw(rt, "conf")
			c.Decoy = rapid.SampledFrom([]string{"", "", strings.TrimSuffix(c.Conf, filepath.Ext(c.Conf)) + ".json", strings.TrimSuffix(c.Conf, filepath.Ext(c.Conf)) + ".yaml"}).Draw(rt, "decoy")
			if c.Decoy == c.Conf {
				c.Decoy = ""
			}
			n := len(c.Sizes)
			k := rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4}).Draw(rt, "runs")
			for i := 0; i < k; i++ {
				run := cliRun{Size: rapid.SampledFrom([]int{7, 7, 1, 2, 3}).Draw(rt, "window"), Start: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(rt, "start")}
				run.Stop = run.Start + rapid.SampledFrom([]int{1, 2, 4, 50, 50}).Draw(rt, "stop")
				run.Reqs = sliceOf(rt, "reqs", simReqGen(n), 1, 10, 25, 60)
				for j := range run.Reqs {
					if c.Cfg.Type == "weightFunLRU" && run.Reqs[j].D < 0 {
						run.Reqs[j].D = 0 // a request before the previous one has no weight
					}
				}
				if rapid.IntRange(0, 3).Draw(rt, "folder") == 0 {
					run.Split = rapid.SliceOfN(rapid.IntRange(0, 30), 1, 3).Draw(rt, "split")
				}
				run.Gz = rapid.Bool().Draw(rt, "gz")
				run.Dump = rapid.IntRange(0, 2).Draw(rt, "dump") > 0
				run.NoFiles = rapid.IntRange(0, 5).Draw(rt, "noFiles") == 0
				run.Overwrite = rapid.IntRange(0, 2).Draw(rt, "overwrite") > 0
				run.Load = i > 0 && rapid.IntRange(0, 3).Draw(rt, "load") > 0
				run.Cold = rapid.IntRange(0, 2).Draw(rt, "cold") == 0
				run.NoStats = rapid.IntRange(0, 2).Draw(rt, "noStats") == 0
				run.AbsData = rapid.Bool().Draw(rt, "absData")
				run.RelConf = rapid.Bool().Draw(rt, "relConf")
				c.Runs = append(c.Runs, run)
			}
			return c
		},
		Run: c26Run,
	})
}
