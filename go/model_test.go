//go:build go1.21

package zverif

import (
	"math"
	"sort"
)

// model is the reference for the caches without random choices.

type mfile struct {
	name              int64
	size              float64
	freq, nhit, nmiss int64
	recency, delta    int64
	deltaKnown        bool
	insert, last      int64
	times             []int64
	held              bool
	seq               int
	key               float64
	weight, age       float64
}

type model struct {
	cfg                                              Cfg
	stats                                            map[int64]*mfile
	dataset                                          map[int64]bool
	size                                             float64
	tick                                             int64
	first, last                                      int64
	firstSet                                         bool
	seq                                              int
	req, hits, misses, added, deleted, redirected    int64
	written, read, onHit, onMiss, delData, redirSize float64
	watched                                          map[int64]int
	watchedAcc                                       int
	maxWeight                                        float64
}

func newModel(cfg Cfg) *model {
	m := &model{cfg: cfg, stats: map[int64]*mfile{}, watched: map[int64]int{}, dataset: map[int64]bool{}}
	for _, i := range cfg.Dataset {
		m.dataset[fname(i)] = true
	}
	return m
}

func (m *model) keyOf(f *mfile) float64 {
	switch m.cfg.Type {
	case "lfu":
		return float64(f.freq)
	case "sizeBig":
		return -f.size
	case "sizeSmall":
		return f.size
	}
	return 0
}

// order lists the held files worst first.
func (m *model) order() []*mfile {
	res := []*mfile{}
	for _, f := range m.stats {
		if f.held {
			res = append(res, f)
		}
	}
	sort.Slice(res, func(i, j int) bool {
		if res[i].key != res[j].key {
			return res[i].key < res[j].key
		}
		return res[i].seq < res[j].seq
	})
	return res
}

func (m *model) heldNames() []int64 {
	res := []int64{}
	for n, f := range m.stats {
		if f.held {
			res = append(res, n)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// prefix counts the worst-first files needed to reach the amount.
func prefix(list []*mfile, amount float64) int {
	if amount <= 0 {
		return 0
	}
	var sum float64
	for i, f := range list {
		sum += f.size
		if sum >= amount {
			return i + 1
		}
	}
	return len(list)
}

// release evicts for an amount.  When the amount is the result of a
// percentage its rounding is tolerated: of the admissible numbers of victims
// the observed one is taken.
func (m *model) release(amount float64, exact bool, observed int64) ([]*mfile, bool) {
	for _, v := range m.watched {
		m.watchedAcc += v
	}
	m.watched = map[int64]int{}
	list := m.order()
	lo, hi := prefix(list, amount), prefix(list, amount)
	if !exact {
		tol := 1e-9 * math.Max(1, m.cfg.Cap)
		lo, hi = prefix(list, amount-tol), prefix(list, amount+tol)
	}
	k := lo
	if int64(k) < observed {
		k = int(observed)
	}
	if k > hi {
		k = hi
	}
	victims := append([]*mfile(nil), list[:k]...)
	for _, f := range victims {
		f.held = false
		m.size -= f.size
		m.deleted++
		m.delData += f.size
		m.watched[f.name] = 0
	}
	return victims, lo != hi
}

func (m *model) capacity() float64 { return m.size / m.cfg.Cap * 100 }

// meanWeight is the mean weight of all files with statistics.
func (m *model) meanWeight() float64 {
	names := []int64{}
	for n := range m.stats {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })
	var sum, comp float64
	for _, n := range names { // compensated summation
		y := m.stats[n].weight - comp
		t := sum + y
		comp = (t - sum) - y
		sum = t
	}
	return sum / float64(len(names))
}

func weightOf(c Cfg, freq int64, size, age float64) float64 {
	switch c.WFun {
	case "FuncAdditive":
		return c.A*float64(freq) + c.B*size + c.G*age
	case "FuncAdditiveExp":
		return math.Pow(float64(freq), c.A) + math.Pow(size, c.B) + math.Pow(age, c.G)
	}
	return math.Pow(float64(freq), c.A) * math.Pow(size, c.B) * math.Pow(age, c.G)
}

// exactWeights tells that no weight of the configuration is rounded.
func exactWeights(c Cfg) bool {
	dyadic := func(v float64) bool { return v*4 == math.Trunc(v*4) && math.Abs(v) <= 16 }
	return c.WFun == "FuncAdditive" && dyadic(c.A) && dyadic(c.B) && dyadic(c.G)
}

// outcome is what the model expects of one request.
type outcome struct {
	hit, added, redirected bool
	victims                []*mfile // evicted to make room
	wmVictims              []*mfile // evicted by the watermark
	ambiguous              bool     // a float boundary was settled by observation
	refusedByWeight        bool
	purged                 bool
}

func (m *model) request(name int64, size float64, now int64, obs Obs) outcome {
	var o outcome
	f := m.stats[name]
	o.hit = f != nil && f.held
	if !o.hit {
		if _, in := m.watched[name]; in {
			m.watched[name]++
		}
		if m.cfg.Redirect {
			usage := m.onMiss / (m.cfg.BW * (1000.0 / 8) * 86400) * 100
			red := usage >= 95
			if near(usage, 95) && usage != 95 {
				red, o.ambiguous = obs.Redirected, true
			}
			if red {
				o.redirected = true
				m.redirected++
				m.redirSize += size
				return o
			}
		}
	}
	// statistics
	m.req++
	if !m.firstSet {
		m.first, m.firstSet = now, true
	}
	m.last = now
	if f == nil {
		f = &mfile{name: name, insert: now, delta: math.MaxInt64, deltaKnown: true, recency: m.tick}
		m.stats[name] = f
	} else {
		f.delta = m.tick - f.recency
		f.deltaKnown = f.recency >= 0
		f.recency = m.tick
	}
	f.size = size
	f.freq++
	if o.hit {
		f.nhit++
	} else {
		f.nmiss++
	}
	f.last = now
	f.times = append(f.times, now)
	if len(f.times) > 32 {
		f.times = f.times[1:]
	}
	refused := false
	if m.cfg.Type == "weightFunLRU" {
		var sum float64
		for _, t := range f.times {
			sum += float64(now-t) / 60
		}
		f.age = sum / 32
		f.weight = weightOf(m.cfg, f.freq, f.size, f.age)
		m.maxWeight = math.Max(m.maxWeight, math.Abs(f.weight))
		if !o.hit {
			mean := m.meanWeight()
			refused = f.weight > mean
			if !exactWeights(m.cfg) && !(math.Abs(f.weight-mean) > 1e-9*math.Max(1, m.maxWeight)) {
				// too close to call: settled by observation
				o.ambiguous = true
				refused = !obs.Added && (size <= m.cfg.Cap || obs.Deleted == 0)
			}
			o.refusedByWeight = refused
		}
	}
	if m.cfg.Type == "lruDatasetVerifier" && !o.hit && !m.dataset[name] {
		refused = true
	}
	if o.hit {
		m.hits++
		m.onHit += size
		m.seq++
		f.seq, f.key = m.seq, m.keyOf(f)
	} else {
		m.misses++
		m.onMiss += size
		if !refused {
			if m.size+size > m.cfg.Cap {
				o.victims, _ = m.release(size, true, 0)
			}
			if m.size+size <= m.cfg.Cap {
				o.added = true
				f.held = true
				m.seq++
				f.seq, f.key = m.seq, m.keyOf(f)
				m.size += size
				m.added++
				m.written += size
			}
		}
	}
	m.read += size
	// pruning
	if float64(m.last-m.first)/86400 >= m.cfg.Step {
		for n, g := range m.stats {
			if !g.held && float64(m.last-g.last)/86400 >= m.cfg.MaxDiff {
				delete(m.stats, n)
				o.purged = true
			}
		}
		m.first = m.last
	}
	m.tick++
	// watermark
	if m.cfg.WM {
		c1, c2 := m.size/m.cfg.Cap*100, m.size*100/m.cfg.Cap
		full := c1 >= m.cfg.High
		if full != (c2 >= m.cfg.High) || (near(c1, m.cfg.High) && c1 != m.cfg.High) {
			o.ambiguous = true
			full = obs.Deleted > int64(len(o.victims))
		}
		if full {
			var amb bool
			o.wmVictims, amb = m.release(m.size-m.cfg.Low*m.cfg.Cap/100, false, obs.Deleted-int64(len(o.victims)))
			o.ambiguous = o.ambiguous || amb
		}
	}
	return o
}

// free is an explicit release; it returns the victims.
func (m *model) free(amount float64, percentage bool, observed int64) []*mfile {
	if percentage {
		v, _ := m.release(amount*m.cfg.Cap/100, false, observed)
		return v
	}
	v, _ := m.release(amount, true, 0)
	return v
}

func (m *model) report() int {
	sum := m.watchedAcc
	for n, v := range m.watched {
		sum += v
		m.watched[n] = 0
	}
	m.watchedAcc = 0
	return sum
}

func (m *model) clearStats() {
	m.req, m.hits, m.misses, m.added, m.deleted, m.redirected = 0, 0, 0, 0, 0, 0
	m.written, m.read, m.onHit, m.onMiss, m.delData, m.redirSize = 0, 0, 0, 0, 0, 0
}

func (m *model) clearFiles() {
	for _, f := range m.stats {
		f.held = false
		f.recency = -1 // how long ago is not specified after a cold start
	}
	m.size = 0
}
