// C01: Fit returns the minimum-norm least-squares solution; Predict, PredictOne
// and Rss agree with their definitions.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type fitCase struct {
	kit.Prob
	View bool `json:"view"`
}

func (c fitCase) Smaller() []fitCase {
	var out []fitCase
	for _, q := range c.SmallerProbs(1) {
		out = append(out, fitCase{q, c.View})
	}
	if c.P > 1 {
		for j := 0; j < c.P; j++ {
			out = append(out, fitCase{c.DropCol(j), c.View})
		}
	}
	return out
}

func genFit(t *rapid.T) fitCase {
	c := fitCase{kit.GenProb(t, kit.ProbOpts{MinN: 1, MaxN: 40, MinP: 1, MaxP: 12, MaxScale: 2,
		Shape: rapid.IntRange(-1, 1).Draw(t, "shape")}), rapid.Bool().Draw(t, "view")}
	if z := rapid.IntRange(0, 39).Draw(t, "zeros"); z < 2 {
		// one column, or all of them, with only zeros
		for i := 0; i < c.N; i++ {
			for j := 0; j < c.P; j++ {
				if z == 0 || j == (c.N+c.P)%c.P {
					c.X[i*c.P+j] = 0
				}
			}
		}
	}
	return c
}

func genFitBig(t *rapid.T) fitCase {
	return fitCase{kit.GenProb(t, kit.ProbOpts{MinN: 30, MaxN: 150, MinP: 10, MaxP: 40,
		Shape: rapid.IntRange(-1, 1).Draw(t, "shape")}), rapid.Bool().Draw(t, "view")}
}

// designs larger than any block or batch size
func genFitHuge(t *rapid.T) fitCase {
	o := kit.ProbOpts{MinN: 150, MaxN: 700, MinP: 1, MaxP: 60, Shape: 1}
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		o = kit.ProbOpts{MinN: 5, MaxN: 60, MinP: 60, MaxP: 200, Shape: -1}
	}
	long := rapid.IntRange(0, 2).Draw(t, "long") == 0
	if long { // many more rows than columns
		o = kit.ProbOpts{MinN: 150, MaxN: 3000, MinP: 1, MaxP: 6, Shape: 1}
	}
	o.MaxScale = rapid.IntRange(0, 3).Draw(t, "scales")
	p := kit.GenProb(t, o)
	if long && p.P > 1 && rapid.Bool().Draw(t, "near") {
		// two columns that are nearly the same
		r := kit.NewRng(rapid.Uint64().Draw(t, "near"))
		a := r.I(p.P - 1)
		e := math.Pow(10, -1-4*r.F()) // clearly above the rank cut
		d := math.Pow(10, -8*r.F())
		for i := 0; i < p.N; i++ {
			p.X[i*p.P+p.P-1] = p.X[i*p.P+a] + e*r.N()
			p.Y[i] = p.X[i*p.P+a] + p.X[i*p.P+p.P-1] + d*r.N()
		}
	}
	return fitCase{p, rapid.Bool().Draw(t, "view")}
}

func genRssHuge(t *rapid.T) rssCase {
	p := kit.GenProb(t, kit.ProbOpts{MinN: 1000, MaxN: 5000, MinP: 1, MaxP: 4, MaxScale: 3})
	if rapid.Bool().Draw(t, "wide") {
		p = kit.GenProb(t, kit.ProbOpts{MinN: 1, MaxN: 20, MinP: 100, MaxP: 1500})
	}
	r := kit.NewRng(rapid.Uint64().Draw(t, "coeff"))
	c := make([]float64, p.P)
	for i := range c {
		c[i] = 3 * r.N()
	}
	return rssCase{p, c}
}

// nearly dependent columns on both sides of the rank cut
func genNear(t *rapid.T) fitCase {
	p := kit.GenProb(t, kit.ProbOpts{MinN: 3, MaxN: 30, MinP: 2, MaxP: 8, Kinds: []string{"gauss", "int"}})
	r := kit.NewRng(rapid.Uint64().Draw(t, "near"))
	k := 1 + r.I(2)
	for ; k > 0; k-- {
		a, b := r.I(p.P), r.I(p.P)
		if a == b {
			continue
		}
		e := []float64{1e-4, 1e-5, 4e-6, 1e-7, 2e-8, 1e-9}[r.I(6)] / math.Sqrt(float64(p.N))
		for i := 0; i < p.N; i++ {
			p.X[i*p.P+a] = p.X[i*p.P+b] + e*r.N()
		}
	}
	return fitCase{p, false}
}

func runFit(c fitCase, o *kit.Obs) error {
	A := c.Cols()
	sv := kit.SingularValues(A)
	// The documented-in-code rank decision treats singular values below 1e-6
	// as zero: cases with values near that line are ambiguous.
	rank := 0
	smin := math.Inf(1)
	for _, s := range sv {
		if s > 2e-6 {
			rank++
			smin = math.Min(smin, s)
		} else if s > 5e-7 {
			return kit.ErrSkip
		}
	}
	if kit.MaxAbs(c.X) == 0 {
		// the shortest of all solutions
		b := featselect.Fit(c.Dense(), c.Target())
		if len(b) != c.P || !kit.Finite(b...) || kit.MaxAbs(b) != 0 {
			return fmt.Errorf("coefficients %v for columns with only zeros", b)
		}
		o.Label("only zeros")
		return nil
	}
	if rank == 0 || sv[0]/smin > 1e8 {
		return kit.ErrSkip
	}
	if smin < 1e-3 || (rank < len(sv) && sv[rank] > 1e-9) {
		o.Label("singular value near the cut")
	}
	full := c.P
	if c.N < full {
		full = c.N
	}
	if rank < full {
		o.Label("rank-deficient")
	} else if c.N <= c.P {
		o.Label("n<=p")
	} else {
		o.Label("full column rank")
	}
	var X mat.Matrix = c.Dense()
	if c.View {
		X = mat.DenseCopyOf(c.Dense().T()).T()
	}
	y := c.Target()
	b := featselect.Fit(X, y)
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) {
		return fmt.Errorf("Fit modified its input")
	}
	if len(b) != c.P {
		return fmt.Errorf("%d coefficients for %d columns", len(b), c.P)
	}
	if !kit.Finite(b...) {
		return fmt.Errorf("non-finite coefficients %v", b)
	}
	dropped := 0.0 // largest singular value below the cut
	if rank < len(sv) {
		dropped = sv[rank]
	}
	cond := sv[0] / smin
	const tol = 1e-12
	want := kit.LeastSquares(A, c.Y, 1e-6)
	scale := kit.Norm(c.Y)/smin + kit.Norm(want)
	// 1. first order optimality: X^T (y - X b) = 0
	pred := kit.PredictRef(A, b)
	res := make([]float64, c.N)
	for i := range res {
		res[i] = c.Y[i] - pred[i]
	}
	for j := range A {
		g := kit.Dot(A[j], res)
		if !(math.Abs(g) <= (tol*cond*kit.Norm(A[j])+2*dropped)*(kit.Norm(c.Y)+1e-300)) {
			return fmt.Errorf("residual not orthogonal to column %d: %g", j, g)
		}
	}
	// 2. minimum norm: b equals the reference pseudo-inverse solution
	lim := tol * cond * scale
	if dropped == 0 || dropped < 1e-9*smin {
		// condition of a least-squares problem of full rank
		lim = tol * (cond*kit.Norm(want) + kit.Norm(c.Y)/smin + cond*kit.Norm(res)/smin)
		if lim < 1e-3*tol*cond*scale {
			o.Label("small residual of a badly conditioned problem")
		}
	}
	for j := range b {
		if !(math.Abs(b[j]-want[j]) <= lim) {
			return fmt.Errorf("coefficient %d: got %g, minimum-norm least squares has %g (rank %d of %d)", j, b[j], want[j], rank, c.P)
		}
	}
	if c.P >= 2 && c.N >= 2 {
		o.NonTrivial()
	}
	// 3. prediction and residual
	p := featselect.Predict(X, b)
	if len(p) != c.N {
		return fmt.Errorf("Predict returned %d values for %d rows", len(p), c.N)
	}
	ps := kit.MaxAbs(c.X) * kit.MaxAbs(b) * float64(c.P)
	rssWant := 0.0
	for i := range p {
		if !(math.Abs(p[i]-pred[i]) <= 1e-12*ps) {
			return fmt.Errorf("Predict row %d: got %g want %g", i, p[i], pred[i])
		}
		row := make([]float64, c.P)
		for j := range row {
			row[j] = c.At(i, j)
		}
		if p1 := featselect.PredictOne(row, b); !(math.Abs(p1-pred[i]) <= 1e-12*ps) {
			return fmt.Errorf("PredictOne row %d: got %g want %g", i, p1, pred[i])
		}
		rssWant += res[i] * res[i]
	}
	rss := featselect.Rss(X, b, y)
	if !(math.Abs(rss-rssWant) <= rssTol(rssWant, ps+kit.MaxAbs(c.Y), c.N, c.P)) {
		return fmt.Errorf("Rss: got %g want %g", rss, rssWant)
	}
	if !c.SameX(X) || !kit.SameSlice(y, c.Y) {
		return fmt.Errorf("Predict/Rss modified its input")
	}
	// 4. no other coefficient vector is better (perturbation test)
	r := kit.NewRng(uint64(c.N*1000 + c.P))
	for k := 0; k < 5; k++ {
		d := append([]float64{}, b...)
		for j := range d {
			d[j] += (kit.MaxAbs(b) + 1) * 1e-2 * r.N()
		}
		if kit.RssRef(A, d, c.Y) < rssWant*(1-1e-9)-1e-9*kit.Dot(c.Y, c.Y) {
			return fmt.Errorf("a perturbed coefficient vector has smaller RSS")
		}
	}
	return nil
}

type rssCase struct {
	kit.Prob
	Coeff []float64 `json:"coeff"`
}

// arbitrary coefficients, not only fitted ones
func genRss(t *rapid.T) rssCase {
	p := kit.GenProb(t, kit.ProbOpts{MinN: 1, MaxN: 30, MinP: 1, MaxP: 10, MaxScale: 3})
	r := kit.NewRng(rapid.Uint64().Draw(t, "coeff"))
	c := make([]float64, p.P)
	for i := range c {
		switch r.I(4) {
		case 0:
			c[i] = 0
		case 1:
			c[i] = float64(r.I(9) - 4)
		default:
			c[i] = 3 * r.N()
		}
	}
	if r.I(3) == 0 { // residuals much smaller than the data
		pred := kit.PredictRef(p.Cols(), c)
		off, e := 0.0, math.Pow(10, -float64(r.I(7)))
		if r.I(2) == 0 {
			for i := 0; i < p.N; i++ {
				p.X[i*p.P] = 1
			}
			c[0] = math.Pow(10, float64(r.I(7)))
			pred = kit.PredictRef(p.Cols(), c)
			off = 1
		}
		for i := range p.Y {
			p.Y[i] = pred[i] + e*(r.N()+off)
		}
	}
	return rssCase{p, c}
}

// rssTol is what rounding in the predictions and in the sum can change.
func rssTol(want, scale float64, n, p int) float64 {
	d := 4e-16 * float64(p+3) * scale
	return 1e-12*want + 4*math.Sqrt(float64(n)*want)*d + 4*float64(n)*d*d + 1e-300
}

// scaleCase has independent columns of very different size.
func genScales(t *rapid.T) fitCase {
	p := kit.GenProb(t, kit.ProbOpts{MinN: 8, MaxN: 30, MinP: 2, MaxP: 5, Kinds: []string{"gauss"}})
	r := kit.NewRng(rapid.Uint64().Draw(t, "scales"))
	for i := range p.Y {
		p.Y[i] = 0.3 * r.N()
	}
	for j := 0; j < p.P; j++ {
		for i := 0; i < p.N; i++ {
			p.X[i*p.P+j] = r.N()
			p.Y[i] += p.X[i*p.P+j]
		}
		f := math.Pow(10, -4.5+12*r.F())
		for i := 0; i < p.N; i++ {
			p.X[i*p.P+j] *= f
		}
	}
	return fitCase{p, false}
}

func runScales(c fitCase, o *kit.Obs) error {
	if c.N < c.P+3 {
		return kit.ErrSkip
	}
	A := c.Cols()
	lo, hi := math.Inf(1), 0.0
	B := make(kit.Cols, c.P)
	for j := range A {
		m := kit.Norm(A[j])
		lo, hi = math.Min(lo, m), math.Max(hi, m)
		for _, v := range A[j] {
			B[j] = append(B[j], v/m)
		}
	}
	sv := kit.SingularValues(B)
	if !(sv[len(sv)-1] > 0.1) || lo*sv[len(sv)-1] < 1e-5 {
		return kit.ErrSkip
	}
	cond := hi / lo / sv[len(sv)-1]
	tol := 100 * 2.3e-16 * cond
	if tol > 0.05 {
		return kit.ErrSkip
	}
	b := featselect.Fit(c.Dense(), c.Target())
	if len(b) != c.P || !kit.Finite(b...) {
		return fmt.Errorf("coefficients %v for %d columns", b, c.P)
	}
	pred := kit.PredictRef(A, b)
	res := make([]float64, c.N)
	for i := range res {
		res[i] = c.Y[i] - pred[i]
	}
	proj := kit.PredictRef(B, kit.LeastSquares(B, res, 1e-9))
	if !(kit.Norm(proj) <= (1e-12+tol)*kit.Norm(c.Y)) {
		return fmt.Errorf("the fit leaves an explainable part of size %g of a target of size %g (column norms from %g to %g), coefficients %v", kit.Norm(proj), kit.Norm(c.Y), lo, hi, b)
	}
	if hi/lo > 1e6 {
		o.NonTrivial()
	}
	if hi/lo > 1e10 {
		o.Label("scales differ by more than 1e10")
	}
	return nil
}

func runRss(c rssCase, o *kit.Obs) error {
	A := c.Cols()
	pred := kit.PredictRef(A, c.Coeff)
	scale := 1e-300
	for j := range A {
		scale += kit.MaxAbs(A[j]) * math.Abs(c.Coeff[j])
	}
	got := featselect.Predict(c.Dense(), c.Coeff)
	want := 0.0
	for i := range pred {
		if !(math.Abs(got[i]-pred[i]) <= 1e-12*scale) {
			return fmt.Errorf("Predict row %d: got %g want %g", i, got[i], pred[i])
		}
		row := c.X[i*c.P : (i+1)*c.P]
		if v := featselect.PredictOne(row, c.Coeff); !(math.Abs(v-pred[i]) <= 1e-12*scale) {
			return fmt.Errorf("PredictOne row %d: got %g want %g", i, v, pred[i])
		}
		d := pred[i] - c.Y[i]
		want += d * d
	}
	rss := featselect.Rss(c.Dense(), c.Coeff, c.Target())
	if want < 1e-6*kit.Dot(c.Y, c.Y) {
		o.Label("small residual of a large target")
	}
	if !(math.Abs(rss-want) <= rssTol(want, scale+kit.MaxAbs(c.Y), c.N, c.P)) {
		return fmt.Errorf("Rss: got %g want %g", rss, want)
	}
	if c.N > 1 {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C01",
		Rule: "A case is a generated design matrix (Gaussian, integer, 0/1, correlated, polynomial, duplicated and rescaled columns, n<p, n=p and n>p, with and without a constant column) and target. Non-trivial: at least 2 rows and 2 columns and every singular value clearly above or below the rank cut.",
		Assumptions: []string{
			"singular values between 5e-7 and 2e-6 are outside the domain: the code's rank cut is an absolute 1e-6",
			"condition number of the non-zero part below 1e8; comparisons are relative to it",
		},
		Subs: []kit.Sub{
			kit.NewSub("fit-again", 3000, 30000, genFit, kit.Again(runFit)), kit.NewSub("fit", 60000, 400000, genFit, runFit),
			kit.NewSub("fit-near-rank", 12000, 200000, genNear, runFit),
			kit.NewSub("fit-large", 1500, 8000, genFitBig, runFit),
			kit.NewSub("fit-huge", 100, 1500, genFitHuge, runFit),
			kit.NewSub("predict-rss-huge", 300, 5000, genRssHuge, runRss),
			kit.NewSub("fit-scales", 10000, 200000, genScales, runScales),
			kit.NewSub("predict-rss", 20000, 300000, genRss, runRss),
		}})
}
