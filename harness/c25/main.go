// C25: pseudo-inverses and leave-one-out errors are exact.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type pinvCase struct {
	kit.Prob
	Tol    float64   `json:"tol"`
	Active []int     `json:"active"`
	Signs  []float64 `json:"signs"`
	Prev   []int     `json:"prev"`
}

func (c pinvCase) Smaller() []pinvCase {
	var out []pinvCase
	for _, q := range c.SmallerProbs(1) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.Prev != nil {
		d := c
		d.Prev = nil
		out = append(out, d)
	}
	return out
}

func gen(t *rapid.T) pinvCase {
	shape := rapid.SampledFrom([]int{-1, 0, 1}).Draw(t, "shape")
	c := pinvCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 1, MaxN: 12, MinP: 1, MaxP: 7, BigN: 80, BigP: 30, Shape: shape, MaxScale: 2})}
	c.Tol = rapid.SampledFrom([]float64{1e-6, 1e-6, 1e-3, 0.1, 1e-9}).Draw(t, "tol")
	// columns that depend on others up to a small amount, below or above the cuts
	if c.P > 1 && rapid.IntRange(0, 2).Draw(t, "near") == 0 {
		eps := math.Pow(10, rapid.Float64Range(-9, -1).Draw(t, "eps"))
		r := kit.NewRng(rapid.Uint64().Draw(t, "nearSeed"))
		j := r.I(c.P)
		w := make([]float64, c.P)
		for k := range w {
			if k != j {
				w[k] = float64(r.I(3) - 1)
			}
		}
		for i := 0; i < c.N; i++ {
			v := eps * r.N()
			for k := range w {
				v += w[k] * c.At(i, k)
			}
			c.X[i*c.P+j] = v
		}
		c.Kind += "+near"
	}
	pick := func(name string) []int {
		var r []int
		for j := 0; j < c.P; j++ {
			if rapid.Bool().Draw(t, name) {
				r = append(r, j)
			}
		}
		if r == nil {
			r = []int{rapid.IntRange(0, c.P-1).Draw(t, name+"1")}
		}
		return r
	}
	c.Active = pick("active")
	if rapid.Bool().Draw(t, "hasprev") {
		c.Prev = pick("prev")
	}
	for range c.Active {
		c.Signs = append(c.Signs, rapid.SampledFrom([]float64{-1, 0, 1}).Draw(t, "sign"))
	}
	return c
}

// gap reports whether the singular values stay clear of the cut.
func gap(s []float64, cut float64) bool {
	if len(s) == 0 {
		return true
	}
	for _, v := range s {
		if v > cut/20 && v < cut*3 {
			return false
		}
		if v <= cut/20 && v > 1e-11*s[0] && v > 1e-13 {
			// truly small but non-zero values are fine as long as they are well below
			continue
		}
	}
	if smallest(s, cut) < 1e-5*s[0] {
		return false // ill-conditioned: the result is not determined to the tolerance
	}
	// rounding noise of zero singular values must be below the cut
	return s[0]*1e-13 < cut/20
}

func run(c pinvCase, o *kit.Obs) error {
	A := c.Cols()
	s := kit.SingularValues(A)
	if c.N < len(s) {
		s = s[:c.N]
	}
	X := c.Dense()
	if gap(s, c.Tol) {
		var svd mat.SVD
		svd.Factorize(X, mat.SVDThin)
		got := featselect.PseudoInverse(&svd, c.Tol)
		want := kit.PInv(A, c.Tol)
		if err := cmp("PseudoInverse", got, want, smallest(s, c.Tol)); err != nil {
			return err
		}
	}
	if gap(s, math.Sqrt(c.Tol)) {
		var svd mat.SVD
		svd.Factorize(X, mat.SVDThin)
		got := featselect.PseudoInverseXTX(&svd, c.Tol)
		want := xtx(A, math.Sqrt(c.Tol))
		sm := smallest(s, math.Sqrt(c.Tol))
		if err := cmp("PseudoInverseXTX", got, want, sm*sm); err != nil {
			return err
		}
		o.Label("xtx")
	}
	// the LARS knots
	B := A.Pick(c.Active)
	sb := kit.SingularValues(B)
	if c.N < len(sb) {
		sb = sb[:c.N]
	}
	if gap(sb, 1e-3) {
		var m featselect.MorsePenroseCD
		m.SetX(X)
		if c.Prev != nil {
			m.SetActiveSet(append([]int{}, c.Prev...))
		}
		act := append([]int{}, c.Active...)
		m.SetActiveSet(act)
		y := c.Target()
		sg := append([]float64{}, c.Signs...)
		C := m.C(mat.NewVecDense(c.N, y))
		D := m.D(mat.NewVecDense(len(sg), sg))
		P := kit.PInv(B, 1e-3)
		Q := xtx(B, 1e-3)
		if C.Len() != len(act) || D.Len() != len(act) {
			return fmt.Errorf("C and D have %d and %d entries for %d active features", C.Len(), D.Len(), len(act))
		}
		sm := smallest(sb, 1e-3)
		for i := range act {
			wc, wd := kit.Dot(P[i], c.Y), kit.Dot(Q[i], c.Signs)
			if !(math.Abs(C.AtVec(i)-wc) <= 1e-8*(1+kit.Norm(c.Y)/sm*math.Max(1, sb[0]/sm))) {
				return fmt.Errorf("C[%d] is %v, want %v (active %v)", i, C.AtVec(i), wc, c.Active)
			}
			if !(math.Abs(D.AtVec(i)-wd) <= 1e-8*(1+float64(len(act))/(sm*sm)*math.Max(1, sb[0]/sm))) {
				return fmt.Errorf("D[%d] is %v, want %v (active %v)", i, D.AtVec(i), wd, c.Active)
			}
		}
		if !kit.SameInts(act, c.Active) || !kit.SameSlice(y, c.Y) || !kit.SameSlice(sg, c.Signs) {
			return fmt.Errorf("arguments were modified")
		}
		o.Label("knots")
		if sb[len(sb)-1] < 1e-3 || len(act) > c.N {
			o.Label("deficient active set")
		}
	}
	if !c.SameX(X) {
		return fmt.Errorf("the matrix was modified")
	}
	if c.P > 1 && c.N > 1 {
		o.NonTrivial()
	}
	if c.N < c.P {
		o.Label("wide")
	}
	return nil
}

func smallest(s []float64, cut float64) float64 {
	m := math.Inf(1)
	for _, v := range s {
		if v > cut {
			m = math.Min(m, v)
		}
	}
	if math.IsInf(m, 1) {
		return 1
	}
	return m
}

func xtx(A kit.Cols, cut float64) [][]float64 {
	_, s, V := kit.SVD(A)
	p := len(A)
	r := make([][]float64, p)
	for i := range r {
		r[i] = make([]float64, p)
		for j := range r[i] {
			for k := range s {
				if s[k] > cut {
					r[i][j] += V[k][i] * V[k][j] / (s[k] * s[k])
				}
			}
		}
	}
	return r
}

func cmp(name string, got *mat.Dense, want [][]float64, sm float64) error {
	r, c := got.Dims()
	if r != len(want) || c != len(want[0]) {
		return fmt.Errorf("%s is %dx%d, want %dx%d", name, r, c, len(want), len(want[0]))
	}
	mx := 0.0
	for i := range want {
		mx = math.Max(mx, kit.MaxAbs(want[i]))
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if !(math.Abs(got.At(i, j)-want[i][j]) <= 1e-6*(mx+1/sm)+1e-12) {
				return fmt.Errorf("%s(%d,%d) is %v, want %v", name, i, j, got.At(i, j), want[i][j])
			}
		}
	}
	return nil
}

type gcvCase struct{ kit.Prob }

func (c gcvCase) Smaller() []gcvCase {
	var out []gcvCase
	for _, q := range c.SmallerProbs(c.P + 2) {
		out = append(out, gcvCase{q})
	}
	return out
}

func genGcv(t *rapid.T) gcvCase {
	return gcvCase{kit.GenProb(t, kit.ProbOpts{MinN: 3, MaxN: 20, MinP: 1, MaxP: 6, Shape: 1, MaxScale: 1,
		Kinds: []string{"gauss", "int", "corr", "poly", "binary"}})}
}

func runGcv(c gcvCase, o *kit.Obs) error {
	A := c.Cols()
	s := kit.SingularValues(A)
	if s[len(s)-1] < 0.02 || s[0]/s[len(s)-1] > 1e4 {
		return kit.ErrSkip
	}
	// explicit leave-one-out
	sum := 0.0
	for r := 0; r < c.N; r++ {
		q := c.DropRow(r)
		B := q.Cols()
		sb := kit.SingularValues(B)
		if sb[len(sb)-1] < 0.01 || sb[0]/sb[len(sb)-1] > 1e5 {
			return kit.ErrSkip
		}
		b := kit.LeastSquares(B, q.Y, 1e-9)
		pred := 0.0
		for j := 0; j < c.P; j++ {
			pred += b[j] * c.At(r, j)
		}
		sum += (c.Y[r] - pred) * (c.Y[r] - pred)
	}
	want := math.Sqrt(sum / float64(c.N))
	X, y := c.Dense(), c.Target()
	den := featselect.DenumMatrixGcv(X)
	if r, cc := den.Dims(); r != c.N || cc != c.N {
		return fmt.Errorf("leverage matrix is %dx%d for %d rows", r, cc, c.N)
	}
	tr := 0.0
	for i := 0; i < c.N; i++ {
		tr += den.At(i, i)
		if den.At(i, i) < -1e-9 || den.At(i, i) > 1+1e-9 {
			return fmt.Errorf("leverage %v of row %d", den.At(i, i), i)
		}
	}
	if !(math.Abs(tr-float64(c.P)) <= 1e-6) {
		return fmt.Errorf("leverages sum to %v for %d features", tr, c.P)
	}
	coeff := featselect.Fit(X, y)
	pred := featselect.Predict(X, coeff)
	got := featselect.Gcv(den, y, pred)
	if !(math.Abs(got-want) <= 1e-5*(want+kit.Norm(c.Y)*1e-3)) {
		return fmt.Errorf("GCV score %v, leave-one-out error %v", got, want)
	}
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) {
		return fmt.Errorf("arguments were modified")
	}
	if c.P > 1 {
		o.NonTrivial()
	}
	return nil
}

// designs of any shape and rank: the leverage matrix is the projection onto
// the columns and the score follows from its diagonal
func genLev(t *rapid.T) gcvCase {
	c := gcvCase{kit.GenProb(t, kit.ProbOpts{MinN: 2, MaxN: 20, MinP: 1, MaxP: 12, BigN: 90, BigP: 60, Shape: rapid.IntRange(-1, 1).Draw(t, "shape"), MaxScale: 1, Masked: true})}
	r := kit.NewRng(rapid.Uint64().Draw(t, "equal"))
	if c.N > 1 && r.I(2) == 0 { // rows that are the same
		for k := 1 + r.I(3); k > 0; k-- {
			a, b := r.I(c.N), r.I(c.N)
			copy(c.X[a*c.P:(a+1)*c.P], c.X[b*c.P:(b+1)*c.P])
		}
	}
	return c
}

func runLev(c gcvCase, o *kit.Obs) error {
	U, s, _ := kit.SVD(c.Cols())
	const cut = 1e-6
	rank, smin, smax := 0, math.Inf(1), 0.0
	for _, v := range s {
		smax = math.Max(smax, v)
		if v > 1e-3 {
			rank++
			smin = math.Min(smin, v)
		} else if v > 5e-8 {
			return kit.ErrSkip
		}
	}
	if rank == 0 || smax/smin > 1e4 {
		return kit.ErrSkip
	}
	X, y := c.Dense(), c.Target()
	den := featselect.DenumMatrixGcv(X)
	if r, cc := den.Dims(); r != c.N || cc != c.N {
		return fmt.Errorf("leverage matrix is %dx%d for %d rows", r, cc, c.N)
	}
	for i := 0; i < c.N; i++ {
		for j := 0; j < c.N; j++ {
			want := 0.0
			for k := range s {
				if s[k] > cut {
					want += U[k][i] * U[k][j]
				}
			}
			if !(math.Abs(den.At(i, j)-want) <= 1e-13*math.Pow(smax/smin, 2)+1e-9) {
				return fmt.Errorf("element (%d,%d) of the leverage matrix is %v, want %v (rank %d of %d columns, %d rows)", i, j, den.At(i, j), want, rank, c.P, c.N)
			}
		}
	}
	// any predictions
	r := kit.NewRng(uint64(c.N*100 + c.P))
	pred := make([]float64, c.N)
	lev := mat.NewDense(c.N, c.N, nil)
	sum := 0.0
	for i := range pred {
		pred[i] = y[i] + r.N()
		for j := range pred {
			lev.Set(i, j, 0.9*r.F())
		}
		sum += math.Pow((y[i]-pred[i])/(1-lev.At(i, i)), 2)
	}
	if got, want := featselect.Gcv(lev, y, pred), math.Sqrt(sum/float64(c.N)); !kit.Close(got, want, 1e-9) {
		return fmt.Errorf("GCV score %v instead of %v", got, want)
	}
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) {
		return fmt.Errorf("arguments were modified")
	}
	if rank < c.P && rank < c.N {
		o.NonTrivial()
		o.Label("rank-deficient")
	}
	if c.N < c.P {
		o.Label("wide")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C25",
		Rule:        "pinv: matrices up to 12x7 of any shape and rank with scaled, duplicated and correlated columns, several tolerances, active sets replacing earlier ones (non-trivial: both dimensions above one). gcv: full-rank designs with explicit leave-one-out refits (non-trivial: two or more features). leverage: designs of any shape and rank with equal rows (non-trivial: rank-deficient).",
		Assumptions: []string{"singular values within a factor of 20 below to 3 above the cut are outside the domain"},
		Subs: []kit.Sub{
			kit.NewSub("pinv-again", 6000, 60000, gen, kit.Again(run)), kit.NewSub("pinv", 120000, 500000, gen, run),
			kit.NewSub("pinv-large", 2400, 3000, kit.Large(gen), run),
			kit.NewSub("gcv-again", 1500, 10000, genGcv, kit.Again(runGcv)), kit.NewSub("gcv", 18000, 80000, genGcv, runGcv),
			kit.NewSub("leverage-again", 1500, 10000, genLev, kit.Again(runLev)), kit.NewSub("leverage", 12000, 100000, genLev, runLev), kit.NewSub("leverage-large", 300, 2000, kit.Large(genLev), runLev),
		}})
}
