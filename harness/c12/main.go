// C12: the LARS path solves the LASSO exactly.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"pgregory.net/rapid"

	"verif/kit"
)

type larsCase struct {
	kit.Prob
	LogMin float64   `json:"logmin"` // lambMin as a fraction of the largest lambda
	Higher float64   `json:"higher"`
	At     []float64 `json:"at"`
}

func (c larsCase) Smaller() []larsCase {
	var out []larsCase
	for _, q := range c.SmallerProbs(3) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 2 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			out = append(out, d)
		}
	}
	return out
}

func gen(t *rapid.T) larsCase {
	shape := rapid.SampledFrom([]int{1, 1, 1, 0, -1}).Draw(t, "shape")
	c := larsCase{Prob: kit.GenGeneral(t, 4, 30, 1, 9, shape, 0)}
	c.LogMin = rapid.SampledFrom([]float64{-10, -10, -4, -2, -1, -0.5}).Draw(t, "logmin")
	c.Higher = rapid.Float64Range(0, 3).Draw(t, "higher")
	c.At = []float64{rapid.Float64Range(0.01, 0.99).Draw(t, "at")}
	return c
}

const tol = 1e-6

// events below this lambda are within the tolerance of the algorithm
const minLambda = 1e-3

func describe(path []*featselect.LassoLarsNode) string {
	s := ""
	for _, n := range path {
		s += fmt.Sprintf("%.6g:%v ", n.Lamb, n.Selection)
	}
	return s
}

func run(c larsCase, o *kit.Obs) error {
	B, z, bias := kit.NormRef(c.Cols(), c.Y)
	if bias && c.P == 1 {
		return kit.ErrSkip
	}
	for j := range B {
		if !(bias && j == 0) && kit.StdRef(c.Cols()[j]) < 1e-8 {
			return kit.ErrSkip
		}
	}
	lmax, amax := 0.0, 0
	for j := range B {
		if v := math.Abs(kit.Dot(B[j], z)); v > lmax {
			lmax, amax = v, j
		}
	}
	if lmax < 1e-3 {
		return kit.ErrSkip
	}
	lmin := lmax * math.Pow(10, c.LogMin)
	floor := math.Max(lmin, minLambda)
	ref, gap, smin, ok := kit.RefPath(B, z, lmin, floor)
	if !ok || gap < 1e-5 || smin < 0.05 || len(ref) == 0 {
		return kit.ErrSkip
	}
	for _, q := range ref {
		if v, _ := kit.KKTLoose(B, z, q.B, q.Lamb, 1e-10); v > 1e-9 {
			return kit.ErrSkip
		}
	}
	X, y := c.Dense(), c.Target()
	nd := featselect.NewNormalizedData(X, y)
	snapX := append([]float64{}, X.RawMatrix().Data...)
	snapY := append([]float64{}, y...)
	var est featselect.MorsePenroseCD
	if c.N%2 == 1 {
		// the estimator has been used for similar data before
		func() {
			defer func() { recover() }()
			Xp := c.Dense()
			for i := 0; i < c.N; i++ {
				for j := 0; j < c.P; j++ {
					if !(bias && j == 0) {
						Xp.Set(i, j, Xp.At(i, j)+0.1*kit.StdRef(c.Cols()[j])*math.Sin(float64(3*i+5*j)))
					}
				}
			}
			featselect.LassoLars(featselect.NewNormalizedData(Xp, c.Target()), 0.97*lmax, &est)
		}()
	}
	path := featselect.LassoLars(nd, lmin, &est)
	if !kit.SameSlice(snapX, X.RawMatrix().Data) || !kit.SameSlice(snapY, y) {
		return fmt.Errorf("the normalised data was changed")
	}
	if len(path) == 0 {
		return fmt.Errorf("no path, although lambMin %v is below %v", lmin, lmax)
	}
	if !kit.Close(path[0].Lamb, lmax, 1e-10) || !kit.SameInts(path[0].Selection, []int{amax}) {
		return fmt.Errorf("the path starts at %v with %v, the first feature enters at %v (%d)", path[0].Lamb, path[0].Selection, lmax, amax)
	}
	var prev []float64
	small := tol * float64(c.N)
	for k, n := range path {
		if k > 0 && !(n.Lamb < path[k-1].Lamb) {
			return fmt.Errorf("node %d has lambda %v after %v", k, n.Lamb, path[k-1].Lamb)
		}
		if n.Lamb < minLambda {
			break
		}
		if n.Lamb <= lmin {
			return fmt.Errorf("node %d has lambda %v, not above lambMin %v", k, n.Lamb, lmin)
		}
		for i := 1; i < len(n.Selection); i++ {
			if n.Selection[i] <= n.Selection[i-1] {
				return fmt.Errorf("node %d has selection %v", k, n.Selection)
			}
		}
		b, err := kit.FullVec(c.P, n.Selection, n.Coeff)
		if err != nil {
			return fmt.Errorf("node %d: %w", k, err)
		}
		if v, j := kit.KKTLoose(B, z, b, n.Lamb, 1e-7); v > small {
			return fmt.Errorf("node %d (lambda %v, %v %v) violates the optimality condition of feature %d by %v", k, n.Lamb, n.Selection, n.Coeff, j, v)
		}
		if prev != nil {
			for _, f := range c.At {
				q := make([]float64, c.P)
				for j := range q {
					q[j] = f*b[j] + (1-f)*prev[j]
				}
				l := f*n.Lamb + (1-f)*path[k-1].Lamb
				if v, j := kit.KKTLoose(B, z, q, l, 1e-7); v > small {
					return fmt.Errorf("between nodes %d and %d (lambda %v) the optimality condition of feature %d is violated by %v", k-1, k, l, j, v)
				}
			}
		}
		prev = b
	}
	// the path is complete: it has the knots of an independent homotopy solver
	for k, q := range ref {
		if q.Lamb < floor+1e-4 {
			break
		}
		if k >= len(path) || !kit.Close(path[k].Lamb, q.Lamb, 1e-6*(1+q.Lamb)) || !kit.SameInts(path[k].Selection, q.Sel) {
			return fmt.Errorf("knot %d must be at lambda %v with %v; the path is %v", k, q.Lamb, q.Sel, describe(path))
		}
	}
	if len(path) > len(ref) && path[len(ref)].Lamb > floor+1e-4 {
		return fmt.Errorf("knot %d at lambda %v is not on the path, the last one is at %v", len(ref), path[len(ref)].Lamb, ref[len(ref)-1].Lamb)
	}
	// a larger lambMin gives the beginning of the same path
	hi := lmin * math.Pow(10, c.Higher)
	if hi < lmax {
		var est2 featselect.MorsePenroseCD
		p2 := featselect.LassoLars(nd, hi, &est2)
		n := 0
		for _, q := range path {
			if q.Lamb > hi {
				n++
			}
		}
		if len(p2) != n {
			return fmt.Errorf("path to lambMin %v has %d nodes, the path to %v has %d nodes above it", hi, len(p2), lmin, n)
		}
		for k := range p2 {
			if p2[k].Lamb != path[k].Lamb || !kit.SameInts(p2[k].Selection, path[k].Selection) || !kit.SameSlice(p2[k].Coeff, path[k].Coeff) {
				return fmt.Errorf("node %d depends on lambMin", k)
			}
		}
	}
	left := false
	for k := 1; k < len(path); k++ {
		if len(path[k].Selection) < len(path[k-1].Selection) {
			left = true
		}
	}
	if len(path) > 2 {
		o.NonTrivial()
	}
	if left {
		o.Label("a feature leaves")
	}
	if c.N <= c.P {
		o.Label("wide")
	}
	if bias {
		o.Label("bias")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C12",
		Rule:        "A case is continuous data with 4-30 rows and 1-9 columns (any shape, with or without constant column), lambMin between 1e-10 and 0.32 times the largest lambda, and a point between nodes. Non-trivial: at least three nodes.",
		Assumptions: []string{"general position: successive or competing events of the reference path closer than 1e-5, and paths with an active set with a singular value below 0.05 and nodes below lambda 1e-3 are outside the domain (the algorithm has an absolute tolerance of 1e-6)"},
		Subs:        []kit.Sub{kit.NewSub("kkt-again", 6000, 100000, gen, kit.Again(run)), kit.NewSub("kkt", 150000, 3000000, gen, run), kit.NewSub("kkt-large", 8000, 40000, kit.Large(gen), run)}})
}
