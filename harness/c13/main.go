// C13: coordinate descent solves the penalised problem.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type cdCase struct {
	kit.Prob
	Lamb   float64   `json:"lamb"` // as a fraction of the largest correlation
	Mu     float64   `json:"mu"`
	Corr   string    `json:"corr"` // pure, elastic, classo
	Cov    string    `json:"cov"`  // empirical, identity, shrunk
	Shrink float64   `json:"shrink"`
	LogTol int       `json:"logtol"`
	X0     []float64 `json:"x0"`
}

func (c cdCase) Smaller() []cdCase {
	var out []cdCase
	for _, q := range c.SmallerProbs(5) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 1 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			d.X0 = append(append([]float64{}, c.X0[:j]...), c.X0[j+1:]...)
			out = append(out, d)
		}
	}
	for j := range c.X0 {
		if c.X0[j] != 0 {
			d := c
			d.X0 = append([]float64{}, c.X0...)
			d.X0[j] = 0
			out = append(out, d)
		}
	}
	return out
}

func gen(t *rapid.T) cdCase {
	shape := rapid.SampledFrom([]int{1, 1, 1, 1, 0, -1}).Draw(t, "shape")
	po := kit.ProbOpts{MinN: 6, MaxN: 30, MinP: 1, MaxP: 9, BigN: 150, BigP: 40, Shape: shape, MaxScale: 2, Masked: true,
		Kinds: []string{"gauss", "gauss", "int", "binary", "corr", "poly"}}
	if rapid.IntRange(0, 14).Draw(t, "long") == 7 {
		po.MinN, po.MaxN, po.BigN, po.MaxP, po.Shape = 150, 1100, 1100, 5, 1
	}
	c := cdCase{Prob: kit.GenProb(t, po)}
	switch rapid.IntRange(0, 3).Draw(t, "lkind") {
	case 0:
		c.Lamb = math.Pow(10, rapid.Float64Range(-3.5, -1).Draw(t, "llamb"))
	case 1:
		c.Lamb = rapid.SampledFrom([]float64{0.999, 1.001, 1.2}).Draw(t, "lamb1")
	default:
		c.Lamb = rapid.Float64Range(0.05, 0.95).Draw(t, "lamb")
	}
	c.Corr = rapid.SampledFrom([]string{"pure", "pure", "elastic", "elastic", "classo"}).Draw(t, "corr")
	if c.Corr != "pure" {
		c.Mu = rapid.Float64Range(0, 0.8).Draw(t, "mu")
	}
	c.Cov = rapid.SampledFrom([]string{"empirical", "empirical", "empirical", "identity", "shrunk"}).Draw(t, "cov")
	c.Shrink = rapid.Float64Range(0, 0.9).Draw(t, "shrink")
	c.LogTol = -rapid.IntRange(3, 12).Draw(t, "tol")
	r := kit.NewRng(rapid.Uint64().Draw(t, "x0"))
	c.X0 = make([]float64, c.P)
	k := r.I(3)
	for j := range c.X0 {
		if k == 1 || (k == 2 && r.I(2) == 0) {
			c.X0[j] = r.N() * []float64{0.3, 3}[r.I(2)]
		}
	}
	return c
}

// shrunkCov is a covariance estimate with reduced off-diagonal elements.
type shrunkCov struct{ f float64 }

func (s *shrunkCov) Get(X mat.Matrix) mat.Matrix {
	var e featselect.Empirical
	m := mat.DenseCopyOf(e.Get(X))
	n, _ := m.Dims()
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				m.Set(i, j, m.At(i, j)*s.f)
			}
		}
	}
	return m
}

const maxIter = 40000

func run(c cdCase, o *kit.Obs) error {
	B, z, bias := kit.NormRef(c.Cols(), c.Y)
	if bias && c.P == 1 || kit.StdRef(c.Y) < 1e-6 {
		return kit.ErrSkip
	}
	for j := range B {
		if !(bias && j == 0) && kit.StdRef(c.Cols()[j]) < 1e-6 {
			return kit.ErrSkip
		}
	}
	n := float64(c.N)
	lmax := 0.0
	xty := make([]float64, c.P)
	for j := range B {
		xty[j] = kit.Dot(B[j], z) / n
		lmax = math.Max(lmax, math.Abs(xty[j]))
	}
	if lmax < 1e-4 {
		return kit.ErrSkip
	}
	// the covariance estimate
	S := make([][]float64, c.P)
	for i := range S {
		S[i] = make([]float64, c.P)
		for j := range S[i] {
			switch c.Cov {
			case "identity":
				if i == j {
					S[i][j] = 1
				}
			default:
				S[i][j] = kit.Dot(B[i], B[j]) / n
				if c.Cov == "shrunk" && i != j {
					S[i][j] *= c.Shrink
				}
			}
		}
	}
	var cov featselect.CovMat
	switch c.Cov {
	case "identity":
		cov = &featselect.Identity{}
	case "shrunk":
		cov = &shrunkCov{c.Shrink}
	default:
		cov = &featselect.Empirical{}
	}
	mk := func() featselect.LassoCorrection {
		switch c.Corr {
		case "elastic":
			return &featselect.ElasticNet{Lamb: c.Mu}
		case "classo":
			return featselect.NewCLasso(c.P, c.Mu)
		}
		return &featselect.PureLasso{}
	}
	X, y := c.Dense(), c.Target()
	nd := featselect.NewNormalizedData(X, y)
	lamb := c.Lamb * lmax
	tol := math.Pow(10, float64(c.LogTol))
	snapX, snapY := append([]float64{}, X.RawMatrix().Data...), append([]float64{}, y...)
	solve := func(x0 []float64, it int) ([]float64, error) {
		snap := append([]float64{}, x0...)
		b := featselect.LassoCrdDesc(nd, lamb, cov, x0, it, tol, mk())
		if !kit.SameSlice(snapX, X.RawMatrix().Data) || !kit.SameSlice(snapY, y) {
			return nil, fmt.Errorf("the normalised data was changed")
		}
		if !kit.SameSlice(snap, x0) {
			return nil, fmt.Errorf("the start vector %v was changed to %v", snap, x0)
		}
		if len(b) != c.P {
			return nil, fmt.Errorf("%d coefficients for %d features", len(b), c.P)
		}
		if len(x0) > 0 && &x0[0] == &b[0] {
			return nil, fmt.Errorf("the solution shares memory with the start vector")
		}
		return b, nil
	}
	ill := math.Inf(1) // curvature of the problem
	if c.Cov == "identity" {
		ill = 1
	} else {
		act := []int{}
		for j := range B {
			if !(bias && j == 0) {
				act = append(act, j)
			}
		}
		if len(act) >= c.N {
			ill = 0
		} else {
			sv := kit.SingularValues(B.Pick(act))
			ill = sv[len(sv)-1] * sv[len(sv)-1] / n
		}
		if c.Cov == "shrunk" {
			ill = math.Max(ill*c.Shrink, (1-c.Shrink)*(n-1)/n)
		}
	}
	check := func(b []float64, what string) (float64, error) {
		if !kit.Finite(b...) {
			return 0, fmt.Errorf("%s: coefficients %v", what, b)
		}
		mx := kit.MaxAbs(b)
		slack := 2*float64(c.P)*tol*mx + 2e-9
		if c.Corr == "classo" {
			slack *= 5
			if mx < 2e-5 {
				slack += 4e-5
			}
		}
		if bias && b[0] != 0 {
			return 0, fmt.Errorf("%s: the constant column has coefficient %v", what, b[0])
		}
		for j := range b {
			if bias && j == 0 {
				continue
			}
			g := xty[j] - c.Mu*b[j]
			for k := range b {
				g -= S[j][k] * b[k]
			}
			var v float64
			switch {
			case b[j] > 1e-15:
				v = math.Abs(g - lamb)
			case b[j] < -1e-15:
				v = math.Abs(g + lamb)
			default:
				v = math.Abs(g) - lamb
			}
			if v > slack {
				return 0, fmt.Errorf("%s: the optimality condition of feature %d is violated by %v at lambda %v, mu %v: %v", what, j, v, lamb, c.Mu, b)
			}
		}
		return slack, nil
	}
	b0, err := solve(nil, maxIter)
	if err != nil {
		return err
	}
	if ill < 0.02 || c.Mu > 0.9*ill && c.Mu > 0.5 {
		// may converge slowly
		b1, err := solve(nil, maxIter+7)
		if err != nil {
			return err
		}
		if !kit.SameSlice(b0, b1) {
			o.Label("not converged")
			return kit.ErrSkip
		}
	}
	slack, err := check(b0, "from zero")
	if err != nil {
		return err
	}
	b2, err := solve(c.X0, maxIter)
	if err != nil {
		return err
	}
	if _, err := check(b2, fmt.Sprintf("from %v", c.X0)); err != nil {
		if ill >= 0.02 {
			return err
		}
		b3, e3 := solve(c.X0, maxIter+7)
		if e3 != nil {
			return e3
		}
		if !kit.SameSlice(b2, b3) {
			o.Label("not converged")
			return kit.ErrSkip
		}
		return err
	}
	if ill > 0.02 {
		for j := range b0 {
			if !(math.Abs(b0[j]-b2[j]) <= 4*slack*math.Sqrt(float64(c.P))/ill) {
				return fmt.Errorf("the solution depends on the start vector %v: %v and %v", c.X0, b0, b2)
			}
		}
	}
	if c.Cov == "identity" && c.Corr == "pure" {
		for j := range b0 {
			want := featselect.SoftThreshold(xty[j], lamb)
			ref := math.Copysign(math.Max(math.Abs(xty[j])-lamb, 0), xty[j])
			if !kit.Close(want, ref, 1e-14) {
				return fmt.Errorf("SoftThreshold(%v, %v) = %v", xty[j], lamb, want)
			}
			if !kit.Close(b0[j], ref, 1e-10) {
				return fmt.Errorf("feature %d has coefficient %v, the soft-thresholded correlation is %v", j, b0[j], ref)
			}
		}
		o.Label("closed form")
	}
	if c.Cov == "empirical" && c.Corr == "pure" && ill > 0.02 && c.Lamb < 0.99 {
		// the same problem solved by LARS at n*lambda
		var est featselect.MorsePenroseCD
		path := featselect.LassoLars(nd, n*lamb, &est)
		all := featselect.LassoLars(nd, n*lamb*1e-6, &est)
		if len(path) > 0 && len(all) > len(path) {
			a, e1 := kit.FullVec(c.P, all[len(path)-1].Selection, all[len(path)-1].Coeff)
			b, e2 := kit.FullVec(c.P, all[len(path)].Selection, all[len(path)].Coeff)
			la, lb := all[len(path)-1].Lamb, all[len(path)].Lamb
			if e1 == nil && e2 == nil && la-lb > 1e-4 {
				f := (la - n*lamb) / (la - lb)
				q := make([]float64, c.P)
				for j := range q {
					q[j] = a[j] + f*(b[j]-a[j])
				}
				if v, _ := kit.KKTLoose(B, z, q, n*lamb, 1e-9); v < 1e-7 {
					for j := range q {
						if !(math.Abs(q[j]-b0[j]) <= (4*slack+2e-7)*math.Sqrt(float64(c.P))/ill) {
							return fmt.Errorf("coordinate descent gives %v, LARS %v at lambda %v", b0, q, lamb)
						}
					}
					o.Label("compared with LARS")
				}
			}
		}
	}
	nz := 0
	for _, v := range b0 {
		if v != 0 {
			nz++
		}
	}
	feats := c.P
	if bias {
		feats--
		o.Label("bias")
	}
	if nz > 0 && (nz < feats || nz > 2) {
		o.NonTrivial()
	}
	if nz == 0 {
		o.Label("empty")
	}
	if c.N <= c.P {
		o.Label("wide")
	}
	o.Label(c.Corr + "/" + c.Cov)
	return nil
}

// partCase checks the pieces a solver is made of.
type partCase struct {
	P    int       `json:"p"`
	S    []float64 `json:"s"` // symmetric matrix
	Xy   []float64 `json:"xy"`
	B    []float64 `json:"b"`
	Ref  []float64 `json:"ref"` // remembered by the correction
	Mu   float64   `json:"mu"`
	Lamb float64   `json:"lamb"`
	Corr string    `json:"corr"`
}

func genPart(t *rapid.T) partCase {
	c := partCase{P: kit.Upto(t, 1, 8, 40, "p"), Corr: rapid.SampledFrom([]string{"pure", "elastic", "classo"}).Draw(t, "corr")}
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	c.Mu, c.Lamb = 2*r.F(), []float64{1e-3, 0.1, 1, 3}[r.I(4)]
	c.S = make([]float64, c.P*c.P)
	for i := 0; i < c.P; i++ {
		for j := 0; j <= i; j++ {
			v := r.N()
			c.S[i*c.P+j], c.S[j*c.P+i] = v, v
		}
	}
	for j := 0; j < c.P; j++ {
		c.Xy = append(c.Xy, 2*r.N())
		b, q := 0.0, 0.0
		if r.I(2) == 0 {
			b = r.N()
		}
		if r.I(3) > 0 {
			q = r.N()
		}
		c.B, c.Ref = append(c.B, b), append(c.Ref, q)
	}
	return c
}

func runPart(c partCase, o *kit.Obs) error {
	S := mat.NewDense(c.P, c.P, append([]float64{}, c.S...))
	sb := featselect.MulSlice(S, c.B)
	want := make([]float64, c.P)
	for i := range want {
		want[i] = kit.Dot(c.S[i*c.P:(i+1)*c.P], c.B)
		if len(sb) != c.P || !kit.Close(sb[i], want[i], 1e-11) {
			return fmt.Errorf("product %v, want element %d %v", sb, i, want[i])
		}
	}
	// The product follows a change of one coefficient
	for j := range c.B {
		nb := append([]float64{}, c.B...)
		nb[j] = c.Ref[j]
		up := featselect.UpdateCovDotBeta(S, append([]float64{}, want...), j, c.B[j], nb[j])
		for i := range up {
			if w := kit.Dot(c.S[i*c.P:(i+1)*c.P], nb); len(up) != c.P || !(math.Abs(up[i]-w) <= 1e-11*(1+math.Abs(w))) {
				return fmt.Errorf("product after coefficient %d changed from %v to %v is %v, want element %d %v", j, c.B[j], nb[j], up, i, w)
			}
		}
	}
	var corr featselect.LassoCorrection = &featselect.PureLasso{}
	deriv := make([]float64, c.P)
	ref := append([]float64{}, c.Ref...)
	switch c.Corr {
	case "elastic":
		corr = &featselect.ElasticNet{Lamb: c.Mu}
		for j := range deriv {
			deriv[j] = c.Mu * c.B[j]
		}
	case "classo":
		corr = featselect.NewCLasso(c.P, c.Mu)
		n := kit.Dot(ref, ref)
		for j := range deriv {
			if n > 0 {
				deriv[j] = c.Mu * ref[j] * kit.Dot(ref, c.B) / n
			}
		}
		if n > 0 && n < 1e-6 {
			return kit.ErrSkip
		}
	}
	corr.Update(ref)
	kit.Scribble(ref) // the correction has its own copy
	for j := range deriv {
		if got := corr.Deriv(c.B, j); !kit.Close(got, deriv[j], 1e-11) {
			return fmt.Errorf("%s correction of feature %d is %v, want %v", c.Corr, j, got, deriv[j])
		}
	}
	got := featselect.UnsatisfiedKKTConditions(mat.NewVecDense(c.P, append([]float64{}, c.Xy...)), want, c.B, c.Lamb, corr)
	k, listed := 0, 0
	for j := range c.B {
		g := math.Abs(c.Xy[j] - want[j] - deriv[j])
		in := k < len(got) && got[k] == j
		if in {
			k++
			listed++
		}
		if math.Abs(g-c.Lamb) < 1e-7 {
			continue
		}
		if bad := c.B[j] == 0 && g > c.Lamb; bad != in {
			return fmt.Errorf("feature %d (coefficient %v, gradient %v, lambda %v) is listed: %v, in %v", j, c.B[j], g, c.Lamb, in, got)
		}
	}
	if k != len(got) {
		return fmt.Errorf("unsatisfied conditions %v of %d features", got, c.P)
	}
	if listed > 0 && listed < c.P {
		o.NonTrivial()
	}
	o.Label("%s", c.Corr)
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C13",
		Rule:        "A case is a normalised dataset with 6-30 rows and 1-9 columns (with or without constant column), lambda from 0.0003 to 1.2 times the largest correlation, a correction, a covariance estimate, a tolerance from 1e-3 to 1e-12 and a start vector. parts: the correction terms, matrix products and violated conditions for random vectors of up to 40 features (non-trivial: some conditions are violated). cd, non-trivial: the solution has features, and either leaves some out or has more than two.",
		Assumptions: []string{"runs that have not converged after 40000 sweeps are outside the domain when the problem is ill-conditioned"},
		Subs:        []kit.Sub{kit.NewSub("parts", 20000, 200000, genPart, runPart), kit.NewSub("cd-again", 3000, 50000, gen, kit.Again(run)), kit.NewSub("cd", 60000, 1000000, gen, run), kit.NewSub("cd-large", 2000, 8000, kit.Large(gen), run)}})
}
