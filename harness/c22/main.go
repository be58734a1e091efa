// C22: model averaging.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type wCase struct {
	Aic   []float64 `json:"aic"`
	Shift float64   `json:"shift"`
}

func genW(t *rapid.T) wCase {
	spread := rapid.SampledFrom([]float64{0, 1, 5, 50, 1000, 1e6}).Draw(t, "spread")
	base := rapid.SampledFrom([]float64{0, 0, -100, 100, -1e4, 1e4, 1e6, -1e6, 800, -800}).Draw(t, "base")
	c := wCase{Shift: rapid.Float64Range(-2000, 2000).Draw(t, "shift")}
	n := kit.Upto(t, 1, 15, 300, "n")
	for i := 0; i < n; i++ {
		c.Aic = append(c.Aic, base+spread*rapid.Float64Range(-1, 1).Draw(t, "a"))
	}
	return c
}

func runW(c wCase, o *kit.Obs) error {
	a := append([]float64{}, c.Aic...)
	w := featselect.WeightsFromAIC(a)
	if !kit.SameSlice(a, c.Aic) {
		return fmt.Errorf("the AIC values were modified")
	}
	if len(w) != len(a) || !kit.Finite(w...) {
		return fmt.Errorf("weights %v for %v", w, c.Aic)
	}
	min := a[0]
	for _, v := range a {
		min = math.Min(min, v)
	}
	sum, ref := 0.0, 0.0
	for i := range a {
		ref += math.Exp(min - a[i])
		sum += w[i]
	}
	if !(math.Abs(sum-1) <= 1e-9) {
		return fmt.Errorf("weights %v of %v sum to %v", w, c.Aic, sum)
	}
	mag := math.Abs(min)
	for i := range a {
		want := math.Exp(min-a[i]) / ref
		if !(math.Abs(w[i]-want) <= 1e-9*want+1e-300) {
			return fmt.Errorf("weight %d of %v is %v, want %v", i, c.Aic, w[i], want)
		}
		if w[i] < 0 {
			return fmt.Errorf("negative weight %v", w[i])
		}
	}
	// only differences matter
	b := make([]float64, len(a))
	for i := range b {
		b[i] = a[i] + c.Shift
	}
	w2 := featselect.WeightsFromAIC(b)
	tol := 1e-9 + 1e-14*(mag+math.Abs(c.Shift))
	for i := range w {
		if !(math.Abs(w[i]-w2[i]) <= tol) {
			return fmt.Errorf("weights change from %v to %v when %v is added to all values", w, w2, c.Shift)
		}
	}
	w3 := featselect.WeightsFromAIC(a)
	if !kit.SameSlice(w, w3) {
		return fmt.Errorf("second call gives %v, first %v", w3, w)
	}
	if len(a) > 1 && sum > 0 {
		o.NonTrivial()
	}
	return nil
}

type sparse struct {
	Sel   []int     `json:"sel"`
	Coeff []float64 `json:"coeff"`
}

type avgCase struct {
	P       int       `json:"p"`
	Weights []float64 `json:"weights"`
	Models  []sparse  `json:"models"`
}

func genA(t *rapid.T) avgCase {
	c := avgCase{P: kit.Upto(t, 1, 10, 100, "p")}
	n := kit.Upto(t, 0, 8, 100, "n")
	for i := 0; i < n; i++ {
		c.Weights = append(c.Weights, rapid.Float64Range(-2, 2).Draw(t, "w"))
		k := rapid.IntRange(0, c.P).Draw(t, "k")
		idx := make([]int, c.P)
		for j := range idx {
			idx[j] = j
		}
		s := sparse{Sel: rapid.Permutation(idx).Draw(t, "sel")[:k], Coeff: []float64{}}
		for j := 0; j < k; j++ {
			s.Coeff = append(s.Coeff, rapid.Float64Range(-100, 100).Draw(t, "c"))
		}
		c.Models = append(c.Models, s)
	}
	return c
}

func runA(c avgCase, o *kit.Obs) error {
	sp := make([]featselect.SparseCoeff, len(c.Models))
	nodes := make([]*featselect.LassoLarsNode, len(c.Models))
	want := make([]float64, c.P)
	for i, m := range c.Models {
		sp[i] = featselect.SparseCoeff{Coeff: append([]float64{}, m.Coeff...), Selection: append([]int{}, m.Sel...)}
		nodes[i] = featselect.NewLassoLarsNode(m.Coeff, 1, m.Sel)
		full := featselect.FullCoeffVector(c.P, m.Sel, m.Coeff)
		if len(full) != c.P {
			return fmt.Errorf("full vector has %d entries, want %d", len(full), c.P)
		}
		for j := 0; j < c.P; j++ {
			v := 0.0
			for k, s := range m.Sel {
				if s == j {
					v = m.Coeff[k]
				}
			}
			if full[j] != v {
				return fmt.Errorf("full vector of %v %v has %v at feature %d", m.Sel, m.Coeff, full[j], j)
			}
			want[j] += c.Weights[i] * v
		}
	}
	w := append([]float64{}, c.Weights...)
	got := featselect.WeightedAveragedCoeff(c.P, w, sp)
	if len(got) != c.P {
		return fmt.Errorf("average has %d entries, want %d", len(got), c.P)
	}
	for j := range want {
		if !(math.Abs(got[j]-want[j]) <= 1e-9*(1+math.Abs(want[j]))) {
			return fmt.Errorf("average of feature %d is %v, want %v", j, got[j], want[j])
		}
	}
	if !kit.SameSlice(w, c.Weights) {
		return fmt.Errorf("weights were modified")
	}
	conv := featselect.LassoNodesSlice2SparsCoeff(nodes)
	if len(conv) != len(nodes) {
		return fmt.Errorf("%d sparse sets from %d nodes", len(conv), len(nodes))
	}
	for i, m := range c.Models {
		if !kit.SameInts(sp[i].Selection, m.Sel) || !kit.SameSlice(sp[i].Coeff, m.Coeff) {
			return fmt.Errorf("coefficients were modified")
		}
		if !kit.SameInts(conv[i].Selection, m.Sel) || !kit.SameSlice(conv[i].Coeff, m.Coeff) {
			return fmt.Errorf("node %d converted to %v %v", i, conv[i].Selection, conv[i].Coeff)
		}
	}
	if len(c.Models) > 1 {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C22",
		Rule: "weights: up to 15 AIC values with spreads from 0 to 1e6 around bases up to 1e6 (non-trivial: more than one). average: up to 8 sparse coefficient sets over up to 10 features (non-trivial: more than one).",
		Subs: []kit.Sub{
			kit.NewSub("weights", 160000, 1000000, genW, runW),
			kit.NewSub("weights-large", 8000, 15000, kit.Large(genW), runW),
			kit.NewSub("average-large", 2400, 5000, kit.Large(genA), runA),
			kit.NewSub("average", 120000, 800000, genA, runA),
		}})
}
