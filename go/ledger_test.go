//go:build go1.21

package zverif

import (
	"math"

	"simulator/v2/cache"
	"simulator/v2/cache/files"
)

// ledger keeps a day's figures from what each request was answered, without the
// cache's own counters.
type ledger struct {
	cfg                                     Cfg
	req, hits, misses, added, redirected    int64
	read, onHit, onMiss, written, redirSize float64
	delData                                 float64
	local, remote                           float64
	up, lo, hitEff, missEff                 float64
	free                                    []float64
}

// teller passes a request on and notes the answers.
type teller struct {
	cache.Cache
	hit, asked, added, accounted bool
	free                         float64
	stats                        *files.Stats
}

func (t *teller) Check(name int64) bool {
	t.asked, t.hit = true, t.Cache.Check(name)
	return t.hit
}

func (t *teller) BeforeRequest(req *cache.Request, hit bool) (*files.Stats, bool) {
	st, h := t.Cache.BeforeRequest(req, hit)
	t.stats = st
	return st, h
}

func (t *teller) UpdatePolicy(req *cache.Request, st *files.Stats, hit bool) bool {
	t.added = t.Cache.UpdatePolicy(req, st, hit)
	return t.added
}

func (t *teller) AfterRequest(req *cache.Request, st *files.Stats, hit bool, added bool) {
	t.free, t.accounted = t.Cache.GetMaxSize()-t.Cache.Size(), true
	t.Cache.AfterRequest(req, st, hit, added)
}

func (l *ledger) bound() float64 {
	switch l.cfg.Region {
	case "it":
		return 19
	case "us":
		return 10
	case "":
		if d := l.up/l.local - l.lo/l.remote; d > 0 && !math.IsNaN(d) {
			return d
		}
	}
	return 0
}

// get sends a request to the cache and books its outcome.
func (l *ledger) get(c cache.Cache, rec cache.CSVRecord, eff float64) (redirected bool) {
	t := &teller{Cache: c}
	before := c.Size()
	_, redirected = cache.GetFile(t, rec.Filename, rec.SizeM, rec.Protocol, eff, rec.Day, rec.SiteName, rec.UserID, rec.FileType)
	if redirected {
		l.redirected++
		l.redirSize += rec.SizeM
		return true
	}
	l.req++
	l.read += rec.SizeM
	cur := 0.0
	if eff != 0 {
		switch rec.Protocol {
		case 1:
			l.up += eff
			l.local++
			cur = eff
		case 0:
			l.lo += eff
			l.remote++
			cur = eff + l.bound()
		}
	}
	if t.hit {
		l.hits++
		l.onHit += rec.SizeM
		l.hitEff += cur
	} else {
		l.misses++
		l.onMiss += rec.SizeM
		if cur != 0 {
			l.missEff += cur - l.bound()
		}
	}
	if t.added {
		l.added++
		l.written += rec.SizeM
		before += rec.SizeM
	}
	l.delData += before - c.Size()
	l.free = append(l.free, t.free)
	return false
}

// check compares the figures of a closed day.
func (l *ledger) check(c cache.Cache, at string) error {
	for _, v := range []struct {
		name      string
		got, want int64
	}{{"requests", c.NumRequests(), l.req}, {"hits", c.NumHits(), l.hits}, {"added files", c.NumAdded(), l.added}, {"redirected requests", c.NumRedirected(), l.redirected}} {
		if v.got != v.want {
			return failf("%s: %d %s reported, the trace made %d", at, v.got, v.name, v.want)
		}
	}
	rate := 0.0
	if l.hits+l.misses > 0 {
		rate = float64(l.hits) / float64(l.hits+l.misses) * 100
	}
	hits, misses := float64(l.hits), float64(l.misses)
	figures := []struct {
		name      string
		got, want float64
	}{{"written data", c.DataWritten(), l.written}, {"read data", c.DataRead(), l.read}, {"read on hit data", c.DataReadOnHit(), l.onHit}, {"read on miss data", c.DataReadOnMiss(), l.onMiss},
		{"size redirected", c.RedirectedSize(), l.redirSize}, {"hit rate", c.HitRate(), rate}, {"weighted hit rate", c.WeightedHitRate(), rate * l.onHit},
		{"bandwidth usage", c.BandwidthUsage(), l.onMiss / c.Bandwidth() * 100}, {"capacity", c.Capacity(), c.Size() / c.GetMaxSize() * 100},
		{"CPU efficiency upper bound", c.CPUEffUpperBound(), l.up / l.local}, {"CPU efficiency lower bound", c.CPUEffLowerBound(), l.lo / l.remote},
		{"CPU hit efficiency", c.CPUHitEff(), l.hitEff / hits}, {"CPU miss efficiency", c.CPUMissEff(), l.missEff / misses}, {"CPU efficiency", c.CPUEff(), (l.hitEff + l.missEff) / (hits + misses)}}
	if l.cfg.Type != "aiRL" {
		figures = append(figures, struct {
			name      string
			got, want float64
		}{"deleted data", c.DataDeleted(), l.delData})
		var sum, sq float64
		for _, v := range l.free {
			sum += v
		}
		mean := sum / float64(len(l.free))
		for _, v := range l.free {
			sq += (v - mean) * (v - mean)
		}
		figures = append(figures, struct {
			name      string
			got, want float64
		}{"avg free space", c.AvgFreeSpace(), mean})
		if n := len(l.free); n > 1 {
			if sd := math.Sqrt(sq / float64(n-1)); math.Abs(c.StdDevFreeSpace()-sd) > 1e-6*math.Max(1, math.Abs(mean)) {
				return failf("%s: deviation of the free space %v, the trace gives %v", at, c.StdDevFreeSpace(), sd)
			}
		}
	}
	for _, v := range figures {
		if !near(v.got, v.want) && !(math.Abs(v.got-v.want) <= 1e-6*math.Max(1, math.Abs(v.want))) {
			return failf("%s: %s %v, the trace gives %v", at, v.name, v.got, v.want)
		}
	}
	return nil
}
