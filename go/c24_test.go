//go:build go1.21

package zverif

import (
	"fmt"
	"math"
	"path/filepath"
	"testing"

	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"simulator/v2/cache/ai/neuralnet"
)

type nnLayer struct {
	W   [][]float64 `json:"w"` // input x output
	B   []float64   `json:"b"`
	Act string      `json:"act"`
}

type nnCase struct {
	Layers []nnLayer   `json:"layers"`
	Ext    string      `json:"ext"`
	Inputs [][]float64 `json:"inputs"`
}

func (c nnCase) file() map[string]any {
	layers := []any{}
	for i, l := range c.Layers {
		layers = append(layers, map[string]any{
			"name":                fmt.Sprintf("dense_%d", i),
			"weights":             map[string]any{"shape": []int{len(l.W), len(l.B)}, "values": l.W},
			"bias":                map[string]any{"shape": []int{len(l.B)}, "values": l.B},
			"activation_function": l.Act,
		})
	}
	return map[string]any{"name": "model", "layers": layers}
}

const ulp = 1.2e-16

// reference computes the outputs and how far rounding may move each of them.
func (c nnCase) reference(input []float64) (out, slack []float64) {
	out = append([]float64{}, input...)
	slack = make([]float64, len(out))
	for _, l := range c.Layers {
		sums, errs := make([]float64, len(l.B)), make([]float64, len(l.B))
		for j := range l.B {
			s, e, abs := 0.0, 0.0, math.Abs(l.B[j])
			for i := range out {
				s += l.W[i][j] * out[i]
				e += math.Abs(l.W[i][j]) * slack[i]
				abs += math.Abs(l.W[i][j] * out[i])
			}
			sums[j] = s + l.B[j]
			errs[j] = e + abs*ulp*float64(len(out)+3)*2
		}
		out, slack = make([]float64, len(l.B)), make([]float64, len(l.B))
		switch l.Act {
		case "sigmoid":
			for j, s := range sums {
				if s >= 0 {
					out[j] = 1 / (1 + math.Exp(-s))
				} else {
					out[j] = math.Exp(s) / (1 + math.Exp(s))
				}
				slack[j] = errs[j]/4 + 8*ulp
			}
		case "hard_sigmoid":
			for j, s := range sums {
				out[j] = 0.2*s + 0.5
				if out[j] < 0 {
					out[j] = 0
				}
				if out[j] > 1 {
					out[j] = 1
				}
				slack[j] = errs[j]/5 + 8*ulp
			}
		case "softmax":
			top, worst := math.Inf(-1), 0.0
			for j, s := range sums {
				top = math.Max(top, s)
				worst = math.Max(worst, errs[j])
			}
			total := 0.0
			for j, s := range sums {
				out[j] = math.Exp(s - top)
				total += out[j]
			}
			for j, s := range sums {
				out[j] /= total
				slack[j] = 2*worst + (8*float64(len(sums))+2*math.Abs(s-top))*ulp
			}
		}
	}
	return out, slack
}

func runNN(c nnCase, rec *Rec) error {
	dir, clean := scratch()
	defer clean()
	path := filepath.Join(dir, "model"+c.Ext)
	if c.Ext == ".json" {
		writeJSON(path, c.file())
	} else {
		writeGzJSON(path, c.file())
	}
	model := neuralnet.LoadModel(path)
	if len(model.Layers) != len(c.Layers) {
		return fmt.Errorf("%d layers were loaded of %d", len(model.Layers), len(c.Layers))
	}
	last := c.Layers[len(c.Layers)-1]
	interior := false
	first := []float64(nil)
	for round := 0; round < 2; round++ {
		for n, in := range c.Inputs {
			vec := mat.NewDense(len(in), 1, append([]float64{}, in...))
			res := model.Predict(vec)
			for i, v := range in {
				if vec.At(i, 0) != v {
					return fmt.Errorf("predicting changed the input vector")
				}
			}
			rows, cols := res.Dims()
			if rows*cols != len(last.B) || (rows != 1 && cols != 1) {
				return fmt.Errorf("input %d: the output has dimensions %d x %d instead of %d values", n, rows, cols, len(last.B))
			}
			got := make([]float64, len(last.B))
			sum := 0.0
			for j := range got {
				got[j] = res.At(j/cols, j%cols)
				sum += got[j]
			}
			if round == 0 {
				if n == 0 {
					first = got
				}
			} else if n == 0 && fmt.Sprint(first) != fmt.Sprint(got) {
				return fmt.Errorf("input 0: predicting again gives %v instead of %v", got, first)
			}
			want, slack := c.reference(in)
			for j := range want {
				if !(math.Abs(want[j]-got[j]) <= slack[j]) {
					return fmt.Errorf("input %d: output %d is %v, the layers give %v (accuracy %g)", n, j, got[j], want[j], slack[j])
				}
				if want[j] > 0.001 && want[j] < 0.999 {
					interior = true
				}
			}
			if last.Act == "softmax" {
				for j, v := range got {
					if !(v >= 0) {
						return fmt.Errorf("input %d: softmax output %d is %v", n, j, v)
					}
				}
				if math.Abs(sum-1) > 1e-12 {
					return fmt.Errorf("input %d: softmax outputs %v sum to %v", n, got, sum)
				}
			}
			class := neuralnet.GetPredictionArgMax(res)
			if class < 0 || class >= len(got) {
				return fmt.Errorf("input %d: predicted class %d of %d", n, class, len(got))
			}
			for _, v := range got {
				if v > got[class] {
					return fmt.Errorf("input %d: class %d is predicted for the outputs %v", n, class, got)
				}
			}
			if class > 0 {
				rec.Class("class>0")
			}
		}
	}
	rec.Class(last.Act)
	rec.Class(c.Ext)
	for _, l := range c.Layers[:len(c.Layers)-1] {
		rec.Class("hidden " + l.Act)
	}
	if interior && (len(c.Layers) > 1 || len(last.B) > 1) {
		rec.NonTrivial()
	}
	return nil
}

func nnNumGen(label string) *rapid.Generator[float64] {
	return rapid.Custom(func(rt *rapid.T) float64 {
		switch rapid.IntRange(0, 5).Draw(rt, label+"Kind") {
		case 0:
			return float64(rapid.IntRange(-8, 8).Draw(rt, label)) / 2
		case 1:
			return 0
		case 2:
			return rapid.Float64Range(-200, 200).Draw(rt, label)
		}
		return float64(rapid.IntRange(-3000, 3000).Draw(rt, label)) / 1000
	})
}

func nnGen(rt *rapid.T) nnCase {
	c := nnCase{Ext: rapid.SampledFrom([]string{".json", ".gz", ".gzip", ".json.gz"}).Draw(rt, "ext")}
	n := rapid.IntRange(1, 4).Draw(rt, "layers")
	in := rapid.IntRange(1, 7).Draw(rt, "in")
	width := in
	num := nnNumGen("v")
	for i := 0; i < n; i++ {
		out := rapid.IntRange(1, 7).Draw(rt, "out")
		l := nnLayer{Act: rapid.SampledFrom([]string{"sigmoid", "hard_sigmoid"}).Draw(rt, "act")}
		if i == n-1 {
			l.Act = rapid.SampledFrom([]string{"softmax", "softmax", "softmax", "sigmoid", "hard_sigmoid"}).Draw(rt, "lastAct")
		}
		for r := 0; r < width; r++ {
			l.W = append(l.W, rapid.SliceOfN(num, out, out).Draw(rt, "w"))
		}
		l.B = rapid.SliceOfN(num, out, out).Draw(rt, "b")
		c.Layers = append(c.Layers, l)
		width = out
	}
	for i := rapid.IntRange(1, 3).Draw(rt, "inputs"); i > 0; i-- {
		c.Inputs = append(c.Inputs, rapid.SliceOfN(num, in, in).Draw(rt, "input"))
	}
	return c
}

func TestC24_Predict(t *testing.T) {
	runSpec(t, Spec[nnCase]{
		Prop: "C24", Name: "Predict",
		Rule:     "random layer shapes, weights, activations and input vectors against a direct computation with an error bound; non-trivial: some output is strictly between 0.001 and 0.999 in a model of more than one layer or output",
		Quick:    4000,
		Thorough: 80000,
		Gen:      nnGen,
		Run:      runNN,
	})
}
