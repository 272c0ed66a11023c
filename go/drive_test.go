//go:build go1.21

package zverif

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"

	"pgregory.net/rapid"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// Shared configuration, trace generation and observation of caches.

const day0 = int64(1514764800)
const dayLen = int64(86400)

// Cfg is a cache configuration.
type Cfg struct {
	Type     string  `json:"type"`
	Cap      float64 `json:"cap"` // MB
	WM       bool    `json:"wm,omitempty"`
	High     float64 `json:"high,omitempty"`
	Low      float64 `json:"low,omitempty"`
	Redirect bool    `json:"redirect,omitempty"`
	BW       float64 `json:"bw,omitempty"` // Gbit
	Region   string  `json:"region,omitempty"`
	MaxDiff  float64 `json:"maxDiff"`
	Step     float64 `json:"step"`
	WFun     string  `json:"wfun,omitempty"`
	A        float64 `json:"a,omitempty"`
	B        float64 `json:"b,omitempty"`
	G        float64 `json:"g,omitempty"`
	Seed     int64   `json:"seed,omitempty"`
	Dataset  []int   `json:"dataset,omitempty"` // file indexes
	Log      bool    `json:"log,omitempty"`
	RL       *RLCfg  `json:"rl,omitempty"`
}

// RLCfg configures a reinforcement-learning cache.
type RLCfg struct {
	Type       string             `json:"type"` // SCDL, SCDL2
	Add        map[string]FeatObj `json:"add,omitempty"`
	Evict      map[string]FeatObj `json:"evict,omitempty"`
	EvType     string             `json:"evType,omitempty"`
	K          int64              `json:"k,omitempty"`
	AddEps     float64            `json:"addEps"`
	AddDecay   float64            `json:"addDecay"`
	EvEps      float64            `json:"evEps"`
	EvDecay    float64            `json:"evDecay"`
	AddUnleash bool               `json:"addUnleash,omitempty"`
	EvUnleash  bool               `json:"evUnleash,omitempty"`
}

// FeatObj is a feature of a feature map file.
type FeatObj struct {
	Type        string `json:"type"`
	Buckets     []any  `json:"buckets"`
	OpenRight   bool   `json:"openRight,omitempty"`
	FileFeature bool   `json:"fileFeature,omitempty"`
}

// Op is a step of a history.  K == "" is a request.
type Op struct {
	K string  `json:"k,omitempty"`
	F int     `json:"f,omitempty"`
	D int64   `json:"d,omitempty"` // seconds elapsed before the step
	P int64   `json:"p,omitempty"`
	E float64 `json:"e,omitempty"`
	A float64 `json:"a,omitempty"`
	S int64   `json:"s,omitempty"` // site
	U int64   `json:"u,omitempty"` // user
	N int     `json:"n,omitempty"` // a request repeated over N files ...
	J int     `json:"j,omitempty"` // ... this many apart
	T bool    `json:"t,omitempty"` // the k-th of them requested k times
}

// HistCase is a configuration with a history.
type HistCase struct {
	Cfg   Cfg       `json:"cfg"`
	Sizes []float64 `json:"sizes"`
	Ops   []Op      `json:"ops"`
	Ops2  []Op      `json:"ops2,omitempty"`
	Files int       `json:"files,omitempty"` // number of files, with the sizes repeated
	Full  bool      `json:"full,omitempty"`  // cleared completely, too
}

// expanded writes out the repeated requests and sizes.
func (c HistCase) expanded(r *Rec) any {
	short := len(c.Ops) + len(c.Ops2)
	if n := len(c.Sizes); c.Files > n && n > 0 {
		sizes := append([]float64(nil), c.Sizes...)
		for i := n; i < c.Files; i++ {
			sizes = append(sizes, sizes[i%n]+float64(i/n)/4)
		}
		c.Sizes = sizes
	}
	long := func(ops []Op) []Op {
		var res []Op
		for _, op := range ops {
			if op.K != "" || op.N < 1 || len(c.Sizes) == 0 {
				res = append(res, op)
				continue
			}
			for k := 0; k < op.N; k++ {
				o := op
				o.N, o.J, o.T = 0, 0, false
				o.F = ((op.F+k*op.J)%len(c.Sizes) + len(c.Sizes)) % len(c.Sizes)
				if k > 0 && op.D > 3600 {
					o.D = 0
				}
				res = append(res, o)
				for again := 0; op.T && again < k; again++ {
					o.D = 0
					res = append(res, o)
				}
			}
		}
		return res
	}
	c.Ops, c.Ops2 = long(c.Ops), long(c.Ops2)
	if len(c.Ops)+len(c.Ops2) > short {
		r.Class("long-history")
	}
	return c
}

// stretch makes some histories long, with many files, at little cost in draws.
func (c *HistCase) stretch(rt *rapid.T) {
	if rapid.IntRange(0, 24).Draw(rt, "stretch") != 24 || len(c.Ops) == 0 || len(c.Sizes) == 0 {
		return
	}
	if n := rapid.SampledFrom([]int{0, 40, 90, 150}).Draw(rt, "files"); n > len(c.Sizes) {
		factor := rapid.SampledFrom([]float64{1, 4, 4, 16}).Draw(rt, "factor")
		c.Files = n
		c.Cfg.Cap *= factor
		c.Cfg.BW *= factor
	}
	one := func(ops []Op, label string) {
		for k := rapid.IntRange(0, 3).Draw(rt, label+"Bursts"); k > 0 && len(ops) > 0; k-- {
			op := &ops[rapid.IntRange(0, len(ops)-1).Draw(rt, label+"At")]
			if op.K != "" {
				continue
			}
			op.J = rapid.SampledFrom([]int{0, 1, 1, 1, 3, -1, 7}).Draw(rt, label+"Stride")
			if op.J != 0 && rapid.IntRange(0, 2).Draw(rt, label+"Ramp") == 0 {
				op.T = true
				op.N = rapid.IntRange(2, 22).Draw(rt, label+"N")
			} else {
				op.N = rapid.SampledFrom([]int{10, 35, 70, 110}).Draw(rt, label+"N")
			}
		}
	}
	one(c.Ops, "ops")
	one(c.Ops2, "ops2")
}

// fname is the name of the i-th file: spread over the range of hashed names.
func fname(i int) int64 { return (int64(i+1)*7368787 + int64(i*i)*104729) % 10000000000 * sign(i) }

func sign(i int) int64 {
	if i%7 == 5 {
		return -1
	}
	return 1
}

func writeGzJSON(path string, v any) {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	writeMembers(f, append(data, '\n'))
}

func writeJSON(path string, v any) {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		panic(err)
	}
}

func (c Cfg) needsDir() bool {
	return c.Type == "aiNN" || c.Type == "aiRL" || c.Type == "lruDatasetVerifier" || c.Log
}

// makeCache builds the configured cache; dir holds its files.
func makeCache(c Cfg, dir string) cache.Cache {
	inst := cache.Create(c.Type, c.Cap, "M", c.WFun, cache.WeightFunctionParameters{Alpha: c.A, Beta: c.B, Gamma: c.G})
	cache.SetRegion(inst, c.Region)
	cache.SetBandwidth(inst, c.BW)
	cache.InitInstance(c.Type, inst, initParams(c, dir))
	return inst
}

func initParams(c Cfg, dir string) cache.InitParameters {
	p := cache.InitParameters{
		Log: c.Log, RedirectReq: c.Redirect, Watermarks: c.WM, HighWatermark: c.High, LowWatermark: c.Low,
		FunctionTypeString: c.WFun, WfParams: cache.WeightFunctionParameters{Alpha: c.A, Beta: c.B, Gamma: c.G},
		RandSeed: c.Seed, MaxNumDayDiff: c.MaxDiff, DeltaDaysStep: c.Step,
	}
	if !c.WM && c.High == 0 && c.Low == 0 {
		p.HighWatermark, p.LowWatermark = 95, 75
	}
	switch c.Type {
	case "lruDatasetVerifier":
		names := []int64{}
		for _, i := range c.Dataset {
			names = append(names, fname(i))
		}
		p.Dataset2TestPath = filepath.Join(dir, "dataset.json.gz")
		writeGzJSON(p.Dataset2TestPath, map[string]any{"selected_files": names})
	case "aiNN":
		p.AIFeatureMap = filepath.Join(dir, "nnmap.json")
		writeJSON(p.AIFeatureMap, map[string]FeatObj{"size": {Type: "float", Buckets: []any{1.0, 2.0}, OpenRight: true}})
	case "aiRL":
		rl := c.RL
		p.AIRLType = rl.Type
		p.EvictionAgentType = rl.EvType
		if p.EvictionAgentType == "" {
			p.EvictionAgentType = "none"
		}
		p.AIRLEvictionK = rl.K
		p.AIRLAdditionEpsilonStart, p.AIRLAdditionEpsilonDecay = rl.AddEps, rl.AddDecay
		p.AIRLEvictionEpsilonStart, p.AIRLEvictionEpsilonDecay = rl.EvEps, rl.EvDecay
		p.AIRLAdditionEpsilonUnleash, p.AIRLEvictionEpsilonUnleash = rl.AddUnleash, rl.EvUnleash
		if len(rl.Add) > 0 {
			p.AIRLAdditionFeatureMap = filepath.Join(dir, "add.json")
			writeJSON(p.AIRLAdditionFeatureMap, rl.Add)
		}
		if len(rl.Evict) > 0 {
			p.AIRLEvictionFeatureMap = filepath.Join(dir, "evict.json.gz")
			writeGzJSON(p.AIRLEvictionFeatureMap, rl.Evict)
		}
	}
	return p
}

// Snap is what a dump says the cache holds.
type Snap struct {
	Files  []files.Stats // in dump order
	Held   map[int64]files.Stats
	Stats  map[int64]files.Stats
	Others map[string]string // other records by type
}

func parseDump(records [][]byte) Snap {
	s := Snap{Held: map[int64]files.Stats{}, Stats: map[int64]files.Stats{}, Others: map[string]string{}}
	for _, raw := range records {
		var rec cache.DumpRecord
		if err := json.Unmarshal(raw, &rec); err != nil {
			panic(fmt.Sprintf("dump record is not JSON: %v", err))
		}
		var info cache.DumpInfo
		if err := json.Unmarshal([]byte(rec.Info), &info); err != nil {
			panic(fmt.Sprintf("dump info is not JSON: %v", err))
		}
		switch info.Type {
		case "FILES", "STATS":
			var st files.Stats
			if err := json.Unmarshal([]byte(rec.Data), &st); err != nil {
				panic(fmt.Sprintf("dump data is not JSON: %v", err))
			}
			if info.Type == "FILES" {
				if _, twice := s.Held[st.Filename]; twice {
					panic(fmt.Sprintf("file %d is held twice", st.Filename))
				}
				s.Files = append(s.Files, st)
				s.Held[st.Filename] = st
			} else {
				if _, twice := s.Stats[st.Filename]; twice {
					panic(fmt.Sprintf("file %d has statistics twice", st.Filename))
				}
				s.Stats[st.Filename] = st
			}
		default:
			s.Others[info.Type] = rec.Data
		}
	}
	return s
}

func snapOf(c cache.Cache) Snap { return parseDump(c.Dumps(true)) }

func (s Snap) names() []int64 {
	res := make([]int64, 0, len(s.Held))
	for n := range s.Held {
		res = append(res, n)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func (s Snap) order() []int64 {
	res := make([]int64, 0, len(s.Files))
	for _, f := range s.Files {
		res = append(res, f.Filename)
	}
	return res
}

func (s Snap) size() float64 {
	var sum float64
	for _, f := range s.Files {
		sum += f.Size
	}
	return sum
}

// missing lists the files of a that are not in b.
func missing(a, b map[int64]files.Stats) []int64 {
	res := []int64{}
	for n := range a {
		if _, in := b[n]; !in {
			res = append(res, n)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// Counters are the figures a cache reports.
type Counters struct {
	Req, Hits, Added, Deleted, Redirected                int64
	Written, Read, OnHit, OnMiss, DelData, RedirSize     float64
	Size, Max, Cap, HitRate, WHR, BW, BWU, AvgFree, StdF float64
	Eff, HitEff, MissEff, Up, Lo                         float64
}

func counters(c cache.Cache) Counters {
	return Counters{
		Req: c.NumRequests(), Hits: c.NumHits(), Added: c.NumAdded(), Deleted: c.NumDeleted(), Redirected: c.NumRedirected(),
		Written: c.DataWritten(), Read: c.DataRead(), OnHit: c.DataReadOnHit(), OnMiss: c.DataReadOnMiss(), DelData: c.DataDeleted(), RedirSize: c.RedirectedSize(),
		Size: c.Size(), Max: c.GetMaxSize(), Cap: c.Capacity(), HitRate: c.HitRate(), WHR: c.WeightedHitRate(), BW: c.Bandwidth(), BWU: c.BandwidthUsage(),
		AvgFree: c.AvgFreeSpace(), StdF: c.StdDevFreeSpace(),
		Eff: c.CPUEff(), HitEff: c.CPUHitEff(), MissEff: c.CPUMissEff(), Up: c.CPUEffUpperBound(), Lo: c.CPUEffLowerBound(),
	}
}

// str renders counters so that NaN equals NaN.
func (c Counters) str() string { return fmt.Sprintf("%+v", c) }

// close0 compares floats with a relative tolerance; NaN equals NaN.
func near(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// Obs is what one request did.
type Obs struct {
	Added, Redirected, Hit bool
	Deleted                int64
	PreAfter               float64 // occupied size when the request was accounted
	Accounted              bool
	Stats                  *files.Stats // the file's live statistics
}

// spy records the occupied size at the moment a request is accounted.
type spy struct {
	cache.Cache
	pre       float64
	preMax    float64
	accounted bool
	stats     *files.Stats
}

func (s *spy) BeforeRequest(req *cache.Request, hit bool) (*files.Stats, bool) {
	st, h := s.Cache.BeforeRequest(req, hit)
	s.stats = st
	return st, h
}

func (s *spy) AfterRequest(req *cache.Request, st *files.Stats, hit bool, added bool) {
	s.pre, s.preMax = s.Cache.Size(), s.Cache.GetMaxSize()
	s.accounted = true
	s.Cache.AfterRequest(req, st, hit, added)
}

// request sends one request and observes its outcome through the counters.
func request(c cache.Cache, name int64, size float64, op Op, now int64) Obs {
	s := &spy{Cache: c}
	hits, del := c.NumHits(), c.NumDeleted()
	added, redirected := cache.GetFile(s, name, size, op.P, op.E, now, op.S, op.U, int64(0))
	return Obs{Added: added, Redirected: redirected, Hit: c.NumHits() > hits, Deleted: c.NumDeleted() - del,
		PreAfter: s.pre, Accounted: s.accounted, Stats: s.stats}
}

// ---------------------------------------------------------------- generators

// sizeGen draws a file size in MB that is a whole number of bytes.
func sizeGen() *rapid.Generator[float64] {
	return rapid.Custom(func(rt *rapid.T) float64 {
		switch rapid.IntRange(0, 9).Draw(rt, "sizeKind") {
		case 0, 1, 2, 3:
			return float64(rapid.IntRange(1, 16).Draw(rt, "whole"))
		case 4, 5, 6:
			return float64(rapid.IntRange(1, 64).Draw(rt, "quarters")) / 4
		case 7:
			if rapid.IntRange(0, 3).Draw(rt, "empty") == 0 {
				return 0
			}
			return float64(rapid.IntRange(1, 20<<20).Draw(rt, "bytes")) / (1 << 20)
		case 8:
			return 4
		}
		return float64(rapid.IntRange(10, 60).Draw(rt, "big"))
	})
}

func sizesGen(rt *rapid.T, choices ...int) []float64 {
	n := rapid.SampledFrom(choices).Draw(rt, "numFiles")
	res := make([]float64, n)
	same := rapid.IntRange(0, 5).Draw(rt, "sameSizes") == 0
	for i := range res {
		if same && i > 0 {
			res[i] = res[0]
			continue
		}
		res[i] = sizeGen().Draw(rt, "size")
	}
	return res
}

// largeScale turns a few histories into those of a cache as large as a site's, in
// which sums that differ by a fraction of a megabyte are close to each other.
func (c *HistCase) largeScale(rt *rapid.T) {
	if rapid.IntRange(0, 6).Draw(rt, "largeScale") != 6 {
		return
	}
	factor := rapid.SampledFrom([]float64{1 << 22, 1 << 22, 1 << 16}).Draw(rt, "scale")
	c.Cfg.Cap *= factor
	c.Cfg.BW *= factor
	for i := range c.Sizes {
		if c.Sizes[i]*factor > 1 {
			c.Sizes[i] = c.Sizes[i]*factor + float64(rapid.IntRange(-2, 2).Draw(rt, "jitter"))/4
		}
	}
	// some files fill what others leave, or nearly so
	for k := rapid.IntRange(0, 2).Draw(rt, "pairs"); k > 0 && len(c.Sizes) > 1; k-- {
		i := rapid.IntRange(1, len(c.Sizes)-1).Draw(rt, "second")
		rest := c.Cfg.Cap - c.Sizes[rapid.IntRange(0, i-1).Draw(rt, "first")]
		if rest > 1 {
			c.Sizes[i] = rest + float64(rapid.IntRange(-1, 2).Draw(rt, "excess"))/4
		}
	}
	for i := range c.Ops {
		if c.Ops[i].K == "free" {
			c.Ops[i].A *= factor
		}
	}
}

func gapGen() *rapid.Generator[int64] {
	return rapid.SampledFrom([]int64{0, 0, 0, 0, 60, 60, 3600, 7200, 43200, 82800, 86400, 86400, 2 * 86400, 3 * 86400, 7 * 86400})
}

func effGen() *rapid.Generator[float64] {
	return rapid.SampledFrom([]float64{0, 0, 12.5, 50, 75, 99.75, 100, 33.25, 1})
}

// reqGen draws a request on one of n files with some locality.
func reqGen(n int) *rapid.Generator[Op] {
	return rapid.Custom(func(rt *rapid.T) Op {
		f := rapid.IntRange(0, n-1).Draw(rt, "f")
		if rapid.IntRange(0, 2).Draw(rt, "hot") == 0 {
			f = rapid.IntRange(0, (n-1)/3).Draw(rt, "hotF")
		}
		return Op{
			F: f,
			D: gapGen().Draw(rt, "gap"),
			P: rapid.SampledFrom([]int64{0, 1, 1, 2}).Draw(rt, "prot"),
			E: effGen().Draw(rt, "eff"),
			S: rapid.Int64Range(0, 3).Draw(rt, "site"),
			U: rapid.Int64Range(0, 3).Draw(rt, "user"),
		}
	})
}

// opGen mixes requests with the given other operations (about one in rare).
func opGen(n, rare int, others ...string) *rapid.Generator[Op] {
	req := reqGen(n)
	if len(others) == 0 {
		return req
	}
	return rapid.Custom(func(rt *rapid.T) Op {
		if rapid.IntRange(0, rare).Draw(rt, "isOther") != rare {
			return req.Draw(rt, "req")
		}
		k := rapid.SampledFrom(others).Draw(rt, "op")
		op := Op{K: k}
		switch k {
		case "free":
			op.A = rapid.SampledFrom([]float64{0.25, 1, 4, 7.5, 16, 40, 1000}).Draw(rt, "amount")
		case "freep":
			op.A = rapid.SampledFrom([]float64{1, 5, 10, 25, 33, 50, 75, 99, 100, 120}).Draw(rt, "perc")
		}
		return op
	})
}

func capGen(rt *rapid.T) float64 {
	return rapid.SampledFrom([]float64{4, 8, 10, 16, 20, 32, 40, 64, 100, 100, 128, 300}).Draw(rt, "cap")
}

var simpleTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall"}
var boundedTypes = []string{"lru", "lfu", "sizeBig", "sizeSmall", "weightFunLRU", "lruDatasetVerifier", "aiNN", "random", "random_lru", "aiRL", "aiRL"}

// quietCfg has neither watermarks, redirection nor pruning.
func quietCfg(rt *rapid.T, types []string) Cfg {
	return Cfg{Type: rapid.SampledFrom(types).Draw(rt, "type"), Cap: capGen(rt), MaxDiff: 6, Step: 100000, BW: 10, Region: "all"}
}

func pruneGen(rt *rapid.T, c *Cfg) {
	c.MaxDiff = rapid.SampledFrom([]float64{0, 0.5, 1, 2, 3, 6, 7}).Draw(rt, "maxDiff")
	c.Step = rapid.SampledFrom([]float64{0, 0.5, 1, 2, 3, 7, 100000}).Draw(rt, "step")
}

func wmGen(rt *rapid.T, c *Cfg) {
	c.WM = true
	pairs := [][2]float64{{95, 75}, {90, 50}, {100, 0}, {80, 80}, {50, 25}, {75, 60}, {60, 10}, {95, 94}, {0, 0}, {12.5, 6.25}, {33, 20}}
	p := rapid.SampledFrom(pairs).Draw(rt, "watermarks")
	c.High, c.Low = p[0], p[1]
}

func bwGen(rt *rapid.T, c *Cfg) {
	c.Redirect = true
	// 1 Gbit is 10800000 MB per day; 20 MB per day saturates at exactly 19 MB
	c.BW = rapid.SampledFrom([]float64{20, 20, 40, 100, 10, 160, 7.5, 5.1}).Draw(rt, "bw") / 10800000
}

func weightGen(rt *rapid.T, c *Cfg, exact bool) {
	c.WFun = rapid.SampledFrom([]string{"FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"}).Draw(rt, "wfun")
	// negative exponents give infinite weights at age zero: outside the domain
	vals := []float64{0, 0.5, 1, 1, 2, 1.7, 3, 0.3}
	if exact {
		c.WFun = "FuncAdditive"
		vals = []float64{0, 0.5, 1, 2, -1, 4}
	}
	c.A = rapid.SampledFrom(vals).Draw(rt, "alpha")
	c.B = rapid.SampledFrom(vals).Draw(rt, "beta")
	c.G = rapid.SampledFrom(vals).Draw(rt, "gamma")
}

func datasetGen(rt *rapid.T, c *Cfg, n int) {
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 2).Draw(rt, "inDataset") > 0 {
			c.Dataset = append(c.Dataset, i)
		}
	}
}

func bucketsF(rt *rapid.T, label string, pool []float64) []any {
	n := rapid.IntRange(1, 3).Draw(rt, label+"N")
	idx := rapid.IntRange(0, len(pool)-1)
	chosen := map[float64]bool{}
	for i := 0; i < n; i++ {
		chosen[pool[idx.Draw(rt, label)]] = true
	}
	vals := []float64{}
	for v := range chosen {
		vals = append(vals, v)
	}
	sort.Float64s(vals)
	res := []any{}
	for _, v := range vals {
		res = append(res, v)
	}
	return res
}

// rlGen draws an aiRL configuration whose feature maps cover every value.
func rlGen(rt *rapid.T) *RLCfg {
	rl := &RLCfg{}
	eps := []float64{1, 1, 0.5, 0.1, 0.05}
	rl.AddEps = rapid.SampledFrom(eps).Draw(rt, "addEps")
	rl.EvEps = rapid.SampledFrom(eps).Draw(rt, "evEps")
	decays := []float64{0.0000042, 0.01, 0.1, 1}
	rl.AddDecay = rapid.SampledFrom(decays).Draw(rt, "addDecay")
	rl.EvDecay = rapid.SampledFrom(decays).Draw(rt, "evDecay")
	rl.AddUnleash = rapid.Bool().Draw(rt, "addUnleash")
	rl.EvUnleash = rapid.Bool().Draw(rt, "evUnleash")
	mode := rapid.SampledFrom([]string{"scdl", "add", "evict", "evict", "both", "both", "none"}).Draw(rt, "rlMode")
	rl.Type = "SCDL2"
	if mode == "scdl" {
		rl.Type = "SCDL"
	}
	szs, nums, deltas, percs := []float64{1, 4, 8, 16}, []float64{1, 2, 3, 6}, []float64{1, 5, 20, 50}, []float64{10, 25, 50, 75, 90}
	if mode == "scdl" || mode == "add" || mode == "both" {
		rl.Add = map[string]FeatObj{}
		pool := []struct {
			name, typ string
			vals      []float64
		}{{"size", "float", szs}, {"numReq", "int", nums}, {"deltaLastRequest", "int", deltas}, {"percOcc", "float", percs}, {"hitRate", "float", percs}}
		for i, f := range pool {
			if i == 0 || rapid.IntRange(0, 1).Draw(rt, "hasAdd"+f.name) == 1 {
				rl.Add[f.name] = FeatObj{Type: f.typ, Buckets: bucketsF(rt, f.name, f.vals), OpenRight: true}
			}
		}
		if rapid.IntRange(0, 3).Draw(rt, "hasHit") == 0 {
			rl.Add["hit"] = FeatObj{Type: "bool", Buckets: []any{false, true}}
		}
	}
	if mode == "evict" || mode == "both" {
		rl.Evict = map[string]FeatObj{
			"catSize":             {Type: "float", Buckets: bucketsF(rt, "catSize", szs), OpenRight: true, FileFeature: true},
			"catNumReq":           {Type: "int", Buckets: bucketsF(rt, "catNumReq", nums), OpenRight: true, FileFeature: true},
			"catDeltaLastRequest": {Type: "int", Buckets: bucketsF(rt, "catDelta", deltas), OpenRight: true, FileFeature: true},
		}
		// the repository also ships maps without one of the file features
		switch rapid.IntRange(0, 8).Draw(rt, "drop") {
		case 0:
			delete(rl.Evict, "catSize")
		case 1:
			delete(rl.Evict, "catNumReq")
		case 2:
			delete(rl.Evict, "catDeltaLastRequest")
		}
		for _, name := range []string{"catPercOcc", "percOcc", "hitRate"} {
			if rapid.IntRange(0, 1).Draw(rt, "hasEv"+name) == 1 {
				rl.Evict[name] = FeatObj{Type: "float", Buckets: bucketsF(rt, name, percs), OpenRight: true}
			}
		}
		rl.EvType = rapid.SampledFrom([]string{"onK", "onK", "onFree", "onDayEnd"}).Draw(rt, "evType")
		rl.K = rapid.SampledFrom([]int64{0, 1, 2, 3, 5, 8, 32}).Draw(rt, "k")
	}
	return rl
}

var seedGen = rapid.OneOf(rapid.Int64Range(1, 1000), rapid.SampledFrom([]int64{0, 0, -1, math.MaxInt64, 1<<31 - 1}))

// completeCfg adds the type-specific settings.
func completeCfg(rt *rapid.T, c *Cfg, nFiles int, exactWeights bool) {
	switch c.Type {
	case "weightFunLRU":
		weightGen(rt, c, exactWeights)
	case "lruDatasetVerifier":
		datasetGen(rt, c, nFiles)
	case "aiRL":
		c.RL = rlGen(rt)
		c.Seed = seedGen.Draw(rt, "seed")
	case "random", "random_lru":
		c.Seed = seedGen.Draw(rt, "seed")
	}
}

// withDir runs f with a scratch directory when the configuration needs one.
func withDir(c Cfg, f func(dir string) error) error {
	if !c.needsDir() {
		return f("")
	}
	dir, clean := scratch()
	defer clean()
	return f(dir)
}

// anyCfg draws watermarks, redirection and pruning too.
func anyCfg(rt *rapid.T, types []string) Cfg {
	c := quietCfg(rt, types)
	if rapid.IntRange(0, 2).Draw(rt, "hasWM") == 0 {
		wmGen(rt, &c)
	}
	if rapid.IntRange(0, 3).Draw(rt, "hasBW") == 0 {
		bwGen(rt, &c)
	}
	if rapid.Bool().Draw(rt, "hasPrune") {
		pruneGen(rt, &c)
	}
	c.Region = rapid.SampledFrom([]string{"all", "it", "us", ""}).Draw(rt, "region")
	return c
}

// applyOther performs a step that is not a request; it returns the released size.
func applyOther(inst cache.Cache, op Op) float64 {
	switch op.K {
	case "free":
		return inst.Free(op.A, false)
	case "freep":
		return inst.Free(op.A, true)
	case "clearStats":
		inst.ClearStats()
	case "clearFiles":
		inst.ClearFiles()
	case "clear":
		inst.Clear()
	default:
		panic("unknown step " + op.K)
	}
	return 0
}

// agentQueue tells that the files are kept unordered.
func agentQueue(c Cfg) bool { return c.RL != nil && len(c.RL.Evict) > 0 }
