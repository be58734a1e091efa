// C16: orthogonal matching pursuit is greedy and orthogonal.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type ompCase struct {
	kit.Prob
	Tol float64 `json:"tol"`
}

func (c ompCase) Smaller() []ompCase {
	var out []ompCase
	for _, q := range c.SmallerProbs(3) {
		out = append(out, ompCase{q, c.Tol})
	}
	if c.P > 1 {
		for j := 0; j < c.P; j++ {
			out = append(out, ompCase{c.DropCol(j), c.Tol})
		}
	}
	return out
}

func gen(t *rapid.T) ompCase {
	c := ompCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 3, MaxN: 30, MinP: 1, MaxP: 9, BigN: 200, BigP: rapid.SampledFrom([]int{30, 30, 90}).Draw(t, "bigp"), MaxScale: rapid.SampledFrom([]int{1, 1, 1, 4}).Draw(t, "scales"), YMin: -5, YMax: 5, Masked: true,
		Shape: rapid.SampledFrom([]int{1, 1, 1, 0, -1}).Draw(t, "shape")})}
	if rapid.IntRange(0, 5).Draw(t, "zero column") == 0 {
		j := rapid.IntRange(0, c.P-1).Draw(t, "which")
		for i := 0; i < c.N; i++ {
			c.X[i*c.P+j] = 0
		}
		c.Kind += "+zero"
	}
	if c.P > 1 && rapid.IntRange(0, 7).Draw(t, "sum column") == 0 {
		for i := 0; i < c.N; i++ {
			c.X[i*c.P+c.P-1] = c.X[i*c.P] - 2*c.X[i*c.P+c.P/2]
		}
		c.Kind += "+dependent"
	}
	switch rapid.IntRange(0, 3).Draw(t, "tolkind") {
	case 0:
		c.Tol = 0
	case 1:
		c.Tol = 1e-8
	default:
		c.Tol = math.Pow(10, rapid.Float64Range(-2, 1).Draw(t, "tol"))
	}
	if rapid.IntRange(0, 4).Draw(t, "exact") == 0 {
		r := kit.NewRng(rapid.Uint64().Draw(t, "exactSeed"))
		b := make([]float64, c.P)
		for k := 0; k < 1+r.I(3); k++ {
			b[r.I(c.P)] = float64(1+r.I(4)) * []float64{1, -1}[r.I(2)]
		}
		for i := range c.Y {
			c.Y[i] = 0
			for j := range b {
				c.Y[i] += b[j] * c.At(i, j)
			}
		}
		if c.Tol == 0 {
			c.Tol = 1e-8
		}
		c.Kind += "+exact"
	}
	return c
}

func run(c ompCase, o *kit.Obs) error {
	A := c.Cols()
	small := math.Inf(1)
	norm := make([]float64, c.P)
	for j := range A {
		norm[j] = kit.Norm(A[j])
		if norm[j] > 0 {
			small = math.Min(small, norm[j])
		}
	}
	if small < 2e-5 || small > 1e30 || kit.Norm(c.Y) < 1e-6 {
		return kit.ErrSkip
	}
	// a column of zeros does not correlate with anything
	corr := func(j int, r []float64) float64 {
		if norm[j] == 0 {
			return 0
		}
		return math.Abs(kit.Dot(A[j], r)) / norm[j]
	}
	X, y := c.Dense(), c.Target()
	res := featselect.Omp(X, y, c.Tol)
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) {
		return fmt.Errorf("the caller's data was changed")
	}
	if len(res.Order) == 0 || len(res.Order) > c.P || len(res.Coeff) != c.P {
		return fmt.Errorf("order %v, %d coefficients", res.Order, len(res.Coeff))
	}
	used := make([]bool, c.P)
	resid := append([]float64{}, c.Y...)
	var idx []int
	var basis [][]float64 // of the selected columns
	tail := false
	scale := kit.Norm(c.Y)
	for step, f := range res.Order {
		if f < 0 || f >= c.P || used[f] {
			return fmt.Errorf("order %v is not a list of distinct features", res.Order)
		}
		best, arg := -1.0, 0
		for j := range A {
			if v := corr(j, resid); v > best {
				best, arg = v, j
			}
		}
		if tail || best < 1e-9*scale {
			// no column correlates with the residual, or the residual is only
			// rounding noise: the choice means nothing from here on
			used[f] = true
			tail = true
			continue
		}
		if best < 1e-6*scale {
			return kit.ErrSkip
		}
		if got := corr(f, resid); !(got >= best-1e-7*scale) {
			return fmt.Errorf("step %d selects feature %d (correlation %v), feature %d has %v; order %v", step, f, got/kit.Norm(resid), arg, best/kit.Norm(resid), res.Order)
		}
		used[f] = true
		idx = append(idx, f)
		q := append([]float64{}, A[f]...)
		for pass := 0; pass < 2; pass++ {
			for _, e := range basis {
				d := kit.Dot(e, q)
				for i := range q {
					q[i] -= d * e[i]
				}
			}
		}
		dist := kit.Norm(q)
		if dist < 1e-4*norm[f] || dist < 1e-5 {
			return kit.ErrSkip // nearly dependent on the selected columns
		}
		for i := range q {
			q[i] /= dist
		}
		basis = append(basis, q)
		sub := A.Pick(idx)
		s := kit.SingularValues(sub)
		if s[len(s)-1] < 1e-5 || s[len(s)-1] < 1e-6*s[0] {
			return kit.ErrSkip // near the cut of the fit
		}
		fuzz := 1e-13 * s[0] / s[len(s)-1] * scale // of the residuals of any fit
		b := kit.LeastSquares(sub, c.Y, 1e-6)
		pred := kit.PredictRef(sub, b)
		rss := 0.0
		for i := range resid {
			resid[i] = c.Y[i] - pred[i]
			rss += resid[i] * resid[i]
		}
		rms := math.Sqrt(rss / float64(c.N))
		last := step == len(res.Order)-1
		amb := math.Abs(rms-c.Tol) < 1e-7*(rms+c.Tol)+1e-10*scale
		if rms < fuzz && c.Tol > 0 && c.Tol < fuzz {
			return kit.ErrSkip
		}
		if amb && !(rms < c.Tol/10) {
			return kit.ErrSkip
		}
		if rms < c.Tol && !last {
			return fmt.Errorf("residual %v is below the tolerance %v after step %d, but the pursuit goes on: %v", rms, c.Tol, step, res.Order)
		}
		if last && !(rms < c.Tol) && len(idx) < c.P {
			useful := 0.0
			for j := range A {
				useful = math.Max(useful, corr(j, resid))
			}
			if useful < 1e-7*scale {
				o.Label("stopped at the least-squares optimum")
				continue
			}
			return fmt.Errorf("stopped after %d of %d features with residual %v, tolerance %v", len(idx), c.P, rms, c.Tol)
		}
		if last {
			if rms < c.Tol {
				o.Label("stopped by tolerance")
			} else {
				o.Label("all features")
			}
		}
	}
	var sc []float64
	var sorted []int
	for j := 0; j < c.P; j++ {
		if used[j] {
			sorted = append(sorted, j)
			sc = append(sc, res.Coeff[j])
		} else if res.Coeff[j] != 0 {
			return fmt.Errorf("feature %d is not selected (%v) but has coefficient %v", j, res.Order, res.Coeff[j])
		}
	}
	if s := kit.SingularValues(A.Pick(sorted)); len(s) > 0 {
		for _, v := range s {
			if v > 1e-8 && (v < 1e-5 || v < 1e-6*s[0]) {
				return kit.ErrSkip
			}
		}
	}
	if err := kit.CheckLS(&c.Prob, sorted, sc); err != nil {
		return err
	}
	if tail {
		o.Label("exhausted")
	}
	if c.N <= c.P {
		o.Label("wide")
	}
	if len(idx) > 1 {
		o.NonTrivial()
	}
	o.Label("steps=%d", len(idx))
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C16",
		Rule:        "A case is a problem with up to 9 features (large: 30) and fewer or more rows, also with duplicate, dependent and zero columns, with noisy or exact targets and tolerance 0 to 10; every step is recomputed. Non-trivial: at least two steps.",
		Assumptions: []string{"pursuits that select nearly dependent columns, and tolerances equal to a residual (to 1e-7) are outside the domain; once no column correlates with the residual any choice is accepted"},
		Subs:        []kit.Sub{kit.NewSub("steps-again", 6000, 60000, gen, kit.Again(run)), kit.NewSub("steps", 120000, 400000, gen, run), kit.NewSub("steps-large", 3200, 4000, kit.Large(gen), run)}})
}
