//go:build go1.21

package zverif

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"simulator/v2/cache/ai/featuremap"
)

// C16: feature maps discretise every value into its bucket.

type fmFeat struct {
	Name      string    `json:"name"`
	Type      string    `json:"type"`
	Ints      []int64   `json:"ints,omitempty"`
	Floats    []float64 `json:"floats,omitempty"`
	Strings   []string  `json:"strings,omitempty"`
	Bools     []bool    `json:"bools,omitempty"`
	OpenRight bool      `json:"openRight,omitempty"`
	File      bool      `json:"file,omitempty"`
	KeyValues bool      `json:"keyValues,omitempty"` // "values" instead of "buckets"
	Explicit  bool      `json:"explicit,omitempty"`  // writes flags that are false too
	ProbeI    []int64   `json:"probeI,omitempty"`
	ProbeF    []float64 `json:"probeF,omitempty"`
	ProbeS    []string  `json:"probeS,omitempty"`
}

type fmCase struct {
	Feats []fmFeat `json:"feats"`
	Rot   int      `json:"rot"`
}

func (f fmFeat) limits() []any {
	res := []any{}
	switch f.Type {
	case "int":
		for _, v := range f.Ints {
			res = append(res, v)
		}
	case "float":
		for _, v := range f.Floats {
			res = append(res, v)
		}
	case "string":
		for _, v := range f.Strings {
			res = append(res, v)
		}
	case "bool":
		for _, v := range f.Bools {
			res = append(res, v)
		}
	}
	return res
}

// count is the number of buckets of the feature.
func (f fmFeat) count() int {
	n := len(f.limits())
	if f.OpenRight {
		n++
	}
	return n
}

// bucket is the reference discretisation.
func (f fmFeat) bucket(v any) int {
	switch f.Type {
	case "int":
		for i, l := range f.Ints {
			if l >= v.(int64) {
				return i
			}
		}
	case "float":
		for i, l := range f.Floats {
			if l >= v.(float64) {
				return i
			}
		}
	case "string":
		for i, l := range f.Strings {
			if l == v.(string) {
				return i
			}
		}
	case "bool":
		for i, l := range f.Bools {
			if l == v.(bool) {
				return i
			}
		}
	}
	if f.OpenRight {
		return f.count() - 1
	}
	return -1
}

func (f fmFeat) value(i int) any {
	l := f.limits()
	if i < len(l) {
		return l[i]
	}
	if f.Type == "int" {
		return int64(math.MaxInt64)
	}
	return math.MaxFloat64
}

func (f fmFeat) print(i int) string {
	if f.OpenRight && i == f.count()-1 {
		return "max"
	}
	switch v := f.value(i).(type) {
	case int64:
		return fmt.Sprintf("%d", v)
	case float64:
		return fmt.Sprintf("%09.2f", v)
	case bool:
		return fmt.Sprintf("%t", v)
	case string:
		return v
	}
	return "?"
}

// render writes the map as JSON text with the features rotated by rot.
func (c fmCase) render(rot int) string {
	parts := []string{}
	for i := range c.Feats {
		f := c.Feats[(i+rot)%len(c.Feats)]
		key := "buckets"
		if f.KeyValues {
			key = "values"
		}
		name, _ := json.Marshal(f.Name)
		lim, err := json.Marshal(f.limits())
		if err != nil {
			panic(err)
		}
		fields := []string{fmt.Sprintf("%q: %s", key, lim), fmt.Sprintf("\"type\": %q", f.Type)}
		if f.OpenRight || f.Explicit {
			fields = append(fields, fmt.Sprintf("\"openRight\": %t", f.OpenRight))
		}
		if f.File || f.Explicit {
			fields = append(fields, fmt.Sprintf("\"fileFeature\": %t", f.File))
		}
		r := rot % len(fields)
		fields = append(append([]string{}, fields[r:]...), fields[:r]...)
		parts = append(parts, fmt.Sprintf("%s: {%s}", name, strings.Join(fields, ", ")))
	}
	return "{" + strings.Join(parts, ",\n") + "}"
}

func writeText(path, text string) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if ext := filepath.Ext(path); ext == ".gz" || ext == ".gzip" {
		writeMembers(f, []byte(text))
	} else if _, err := f.WriteString(text); err != nil {
		panic(err)
	}
}

func c16Obj(f fmFeat, o featuremap.Obj) error {
	kinds := map[string]reflect.Kind{"int": reflect.Int64, "float": reflect.Float64, "bool": reflect.Bool, "string": reflect.String}
	if o.Name != f.Name || o.Type != f.Type || o.ReflectType != kinds[f.Type] {
		return failf("feature %q of type %s is parsed as %q of type %q (%v)", f.Name, f.Type, o.Name, o.Type, o.ReflectType)
	}
	if o.BucketOpenRight != f.OpenRight || o.FileFeature != f.File {
		return failf("feature %q: open right %t, per file %t, parsed as %t, %t", f.Name, f.OpenRight, f.File, o.BucketOpenRight, o.FileFeature)
	}
	if o.Size() != f.count() {
		return failf("feature %q has %d buckets, reports %d", f.Name, f.count(), o.Size())
	}
	i := 0
	for ov := range o.Values() {
		if ov.Idx != i || ov.Val != f.value(i) {
			return failf("feature %q enumerates bucket %d as (%d, %v), it is %v", f.Name, i, ov.Idx, ov.Val, f.value(i))
		}
		i++
		if i == f.count() {
			break
		}
	}
	if i != f.count() {
		return failf("feature %q enumerates %d of %d buckets", f.Name, i, f.count())
	}
	for i := 0; i < f.count(); i++ {
		if o.Value(i) != f.value(i) {
			return failf("feature %q: bucket %d is %v, reported %v", f.Name, i, f.value(i), o.Value(i))
		}
		if o.ToString(i) != f.print(i) {
			return failf("feature %q: bucket %d prints %q instead of %q", f.Name, i, o.ToString(i), f.print(i))
		}
		if got := o.Index(f.value(i)); got != i {
			return failf("feature %q: the limit %v of bucket %d is in bucket %d", f.Name, f.value(i), i, got)
		}
	}
	for _, v := range f.probes() {
		if got := o.Index(v); got != f.bucket(v) {
			return failf("feature %q with limits %v (open right %t): %v is in bucket %d, should be in %d", f.Name, f.limits(), f.OpenRight, v, got, f.bucket(v))
		}
	}
	return nil
}

func (f fmFeat) probes() []any {
	res := []any{}
	switch f.Type {
	case "int":
		for _, l := range f.Ints {
			res = append(res, l, l-1, l+1)
		}
		for _, v := range f.ProbeI {
			res = append(res, v)
		}
		res = append(res, int64(math.MinInt64), int64(math.MaxInt64), int64(math.MaxInt64-1), int64(0))
	case "float":
		for _, l := range f.Floats {
			res = append(res, l, math.Nextafter(l, math.Inf(-1)), math.Nextafter(l, math.Inf(1)))
		}
		for _, v := range f.ProbeF {
			res = append(res, v)
		}
		res = append(res, -math.MaxFloat64, math.MaxFloat64, 0.0, math.Inf(-1))
	case "string":
		for _, s := range f.Strings {
			res = append(res, s, s+"x", strings.ToUpper(s))
		}
		for _, s := range f.ProbeS {
			res = append(res, s)
		}
	case "bool":
		res = append(res, true, false)
	}
	return res
}

func c16Run(c fmCase, r *Rec) error {
	dir, clean := scratch()
	defer clean()
	var first *featuremap.FeatureManager
	for i, name := range []string{"map.json", "map.json.gz", "map.gzip", "again.json", "other.json.gz"} {
		rot := 0
		if i >= 3 {
			rot = c.Rot + i
		}
		path := filepath.Join(dir, name)
		writeText(path, c.render(rot))
		m := featuremap.Parse(path)
		if len(m.Features) != len(c.Feats) || len(m.FeatureIdxMap) != len(c.Feats) {
			return failf("%s: %d features declared, %d parsed, %d indexed", name, len(c.Feats), len(m.Features), len(m.FeatureIdxMap))
		}
		perFile := 0
		for _, f := range c.Feats {
			idx, in := m.FeatureIdxMap[f.Name]
			if !in || idx < 0 || idx >= len(m.Features) {
				return failf("%s: feature %q is not indexed", name, f.Name)
			}
			if err := c16Obj(f, m.Features[idx]); err != nil {
				return failf("%s: %v", name, err)
			}
			fidx, in := m.FileFeatureIdxMap[f.Name]
			if in != f.File {
				return failf("%s: feature %q: per file %t, but indexed as such: %t", name, f.Name, f.File, in)
			}
			if f.File {
				perFile++
				if fidx < 0 || fidx >= len(m.FileFeatures) {
					return failf("%s: per-file feature %q has no object", name, f.Name)
				}
				if err := c16Obj(f, m.FileFeatures[fidx]); err != nil {
					return failf("%s: %v", name, err)
				}
			}
		}
		if len(m.FileFeatures) != perFile {
			return failf("%s: %d per-file features declared, %d parsed", name, perFile, len(m.FileFeatures))
		}
		if first == nil {
			cp := m
			first = &cp
		} else if !reflect.DeepEqual(first.Features, m.Features) || !reflect.DeepEqual(first.FileFeatures, m.FileFeatures) ||
			!reflect.DeepEqual(first.FeatureIdxMap, m.FeatureIdxMap) || !reflect.DeepEqual(first.FileFeatureIdxMap, m.FileFeatureIdxMap) {
			return failf("%s: the same content was parsed differently than from map.json", name)
		}
	}
	for _, f := range c.Feats {
		r.Class(f.Type)
		if f.OpenRight {
			r.Class("open-right")
		}
		if f.File {
			r.Class("per-file")
		}
	}
	if len(c.Feats) > 1 {
		r.NonTrivial()
	}
	return nil
}

// fmFeatGen draws a feature with strictly increasing limits.
func fmFeatGen(rt *rapid.T, name string, types []string, maxBuckets int) fmFeat {
	f := fmFeat{Name: name, Type: rapid.SampledFrom(types).Draw(rt, "type"), File: rapid.Bool().Draw(rt, "file"),
		KeyValues: rapid.Bool().Draw(rt, "keyValues"), Explicit: rapid.Bool().Draw(rt, "explicit")}
	n := rapid.IntRange(1, maxBuckets).Draw(rt, "buckets")
	switch f.Type {
	case "int":
		f.Ints = rapid.SliceOfNDistinct(rapid.OneOf(rapid.Int64Range(-5, 20), rapid.Int64Range(-(1<<50), 1<<50)), n, n, rapid.ID[int64]).Draw(rt, "ints")
		sort.Slice(f.Ints, func(i, j int) bool { return f.Ints[i] < f.Ints[j] })
		f.ProbeI = rapid.SliceOfN(rapid.OneOf(rapid.Int64Range(-8, 24), rapid.Int64()), 4, 10).Draw(rt, "probes")
	case "float":
		// negative zero and zero are the same limit
		f.Floats = rapid.SliceOfNDistinct(rapid.OneOf(rapid.Map(rapid.IntRange(-20, 80), func(i int) float64 { return float64(i) / 4 }), rapid.Float64Range(-1e12, 1e12)), n, n,
			func(v float64) float64 { return v + 0 }).Draw(rt, "floats")
		sort.Float64s(f.Floats)
		f.ProbeF = rapid.SliceOfN(rapid.OneOf(rapid.Map(rapid.IntRange(-40, 160), func(i int) float64 { return float64(i) / 8 }), rapid.Float64()), 4, 10).Draw(rt, "probes")
	case "string":
		f.Strings = rapid.SliceOfNDistinct(rapid.StringMatching(`[a-zA-Z0-9_é" ]{0,6}`), n, n, rapid.ID[string]).Draw(rt, "strings")
		f.ProbeS = rapid.SliceOfN(rapid.String(), 2, 5).Draw(rt, "probes")
	case "bool":
		f.Bools = rapid.SampledFrom([][]bool{{false, true}, {true, false}, {true}, {false}}).Draw(rt, "bools")
	}
	if f.Type == "int" || f.Type == "float" {
		f.OpenRight = rapid.Bool().Draw(rt, "openRight")
	}
	return f
}

func fmNames(rt *rapid.T, n int) []string {
	names := rapid.SliceOfNDistinct(rapid.OneOf(
		rapid.SampledFrom([]string{"size", "numReq", "deltaLastRequest", "percOcc", "hitRate", "hit", "catSize", "Size", "size2", "a", "b", "Z"}),
		rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,8}`)), n, n, rapid.ID[string]).Draw(rt, "names")
	return names
}

func TestC16_FeatureMap(t *testing.T) {
	runSpec(t, Spec[fmCase]{
		Prop: "C16", Name: "FeatureMap",
		Rule:     "a generated feature map written plain, gzipped and with its entries in other orders, parsed and probed with every limit, its neighbours, extremes and random values; non-trivial: at least two features",
		Quick:    2000,
		Thorough: 25000,
		Gen: func(rt *rapid.T) fmCase {
			c := fmCase{Rot: rapid.IntRange(0, 7).Draw(rt, "rot")}
			for _, name := range fmNames(rt, rapid.IntRange(1, 6).Draw(rt, "features")) {
				c.Feats = append(c.Feats, fmFeatGen(rt, name, []string{"int", "float", "float", "int", "string", "bool"}, 7))
			}
			return c
		},
		Run: c16Run,
	})
}
