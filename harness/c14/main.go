// C14: coordinate-descent paths solve every lambda in order.
package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"sync/atomic"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type pathCase struct {
	kit.Prob
	Lambs  []float64 `json:"lambs"` // ascending, fractions of the largest correlation
	Mu     float64   `json:"mu"`
	Cov    string    `json:"cov"`
	LogTol int       `json:"logtol"`
	Jitter uint64    `json:"jitter"`
	Procs  int       `json:"procs"`
}

func (c pathCase) Smaller() []pathCase {
	var out []pathCase
	if len(c.Lambs) > 1 {
		for i := range c.Lambs {
			d := c
			d.Lambs = append(append([]float64{}, c.Lambs[:i]...), c.Lambs[i+1:]...)
			out = append(out, d)
		}
	}
	for _, q := range c.SmallerProbs(5) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	if c.P > 1 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			out = append(out, d)
		}
	}
	return out
}

// strong: the problem is strictly convex whatever the data.
func (c pathCase) strong() bool { return c.Cov == "identity" || c.Mu >= 0.05 }

func gen(t *rapid.T) pathCase {
	var c pathCase
	if rapid.Bool().Draw(t, "elastic") {
		c.Mu = rapid.Float64Range(0.01, 0.5).Draw(t, "mu")
	}
	c.Cov = rapid.SampledFrom([]string{"empirical", "empirical", "identity"}).Draw(t, "cov")
	if c.strong() && rapid.IntRange(0, 2).Draw(t, "wide") == 0 {
		c.Prob = kit.GenProb(t, kit.ProbOpts{MinN: 3, MaxN: 10, MinP: 4, MaxP: 12, BigN: 60, BigP: 40, Shape: 0, Masked: true,
			Kinds: []string{"gauss", "gauss", "int", "binary"}})
	} else {
		c.Prob = kit.GenProb(t, kit.ProbOpts{MinN: 8, MaxN: 30, MinP: 1, MaxP: 8, BigN: 100, BigP: 25, Shape: 1, Masked: true,
			Kinds: []string{"gauss", "gauss", "int", "binary"}})
	}
	m := rapid.SampledFrom([]int{1, 2, 3, 9, 10, 11, 12, 20, 30, 40}).Draw(t, "m")
	if kit.IsLarge() {
		m = rapid.SampledFrom([]int{10, 64, 65, 100, 101, 150}).Draw(t, "m large")
	}
	r := kit.NewRng(rapid.Uint64().Draw(t, "lambs"))
	hi := []float64{0, 0.1, 0.3, 1.5}[r.I(4)]
	c.Lambs = make([]float64, m)
	for i := range c.Lambs {
		c.Lambs[i] = math.Pow(10, -3.5+(3.5+hi)*r.F())
	}
	if rapid.IntRange(0, 9).Draw(t, "all empty") == 0 {
		for i := range c.Lambs {
			c.Lambs[i] = 1.01 + r.F()
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "equal lambdas") == 0 {
		// a lambda may be listed more than once
		for i := 1; i < m; i++ {
			if r.I(3) == 0 {
				c.Lambs[i] = c.Lambs[r.I(i)]
			}
		}
	}
	sort.Float64s(c.Lambs)
	c.LogTol = -rapid.IntRange(4, 12).Draw(t, "tol")
	c.Jitter = rapid.Uint64().Draw(t, "jitter")
	c.Procs = rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
	return c
}

// jitterCov delays the workers, each call by its own amount.
type jitterCov struct {
	cov  featselect.CovMat
	seed uint64
	n    uint64
}

func (j *jitterCov) Get(X mat.Matrix) mat.Matrix {
	r := kit.NewRng(j.seed + atomic.AddUint64(&j.n, 1)*7919)
	m := j.cov.Get(X)
	for k := r.I(30); k > 0; k-- {
		runtime.Gosched()
	}
	return m
}

const maxIter = 40000

func run(c pathCase, o *kit.Obs) error {
	if kit.StdRef(c.Y) < 1e-6 {
		return kit.ErrSkip
	}
	B, z, bias := kit.NormRef(c.Cols(), c.Y)
	var act []int
	for j := range B {
		if bias && j == 0 {
			continue
		}
		if kit.StdRef(c.Cols()[j]) < 1e-6 {
			return kit.ErrSkip
		}
		act = append(act, j)
	}
	wide := len(act) >= c.N
	if len(act) == 0 || wide && !c.strong() {
		return kit.ErrSkip
	}
	n := float64(c.N)
	ill := 1.0
	if wide && c.Cov == "empirical" {
		ill = c.Mu
	} else if c.Cov == "empirical" {
		sv := kit.SingularValues(B.Pick(act))
		ill = sv[len(sv)-1] * sv[len(sv)-1] / n
	}
	if ill < 0.02 {
		return kit.ErrSkip
	}
	lmax := 0.0
	xty := make([]float64, c.P)
	for j := range B {
		xty[j] = kit.Dot(B[j], z) / n
		lmax = math.Max(lmax, math.Abs(xty[j]))
	}
	if lmax < 1e-4 {
		return kit.ErrSkip
	}
	S := make([][]float64, c.P)
	for i := range S {
		S[i] = make([]float64, c.P)
		for j := range S[i] {
			if c.Cov == "identity" {
				if i == j {
					S[i][j] = 1
				}
			} else {
				S[i][j] = kit.Dot(B[i], B[j]) / n
			}
		}
	}
	var cov featselect.CovMat = &featselect.Empirical{}
	if c.Cov == "identity" {
		cov = &featselect.Identity{}
	}
	var corr featselect.LassoCorrection = &featselect.PureLasso{}
	if c.Mu > 0 {
		corr = &featselect.ElasticNet{Lamb: c.Mu}
	}
	lambs := make([]float64, len(c.Lambs))
	for i := range lambs {
		lambs[i] = c.Lambs[i] * lmax
	}
	snapL := append([]float64{}, lambs...)
	X, y := c.Dense(), c.Target()
	nd := featselect.NewNormalizedData(X, y)
	snapX, snapY := append([]float64{}, X.RawMatrix().Data...), append([]float64{}, y...)
	tol := math.Pow(10, float64(c.LogTol))
	old := runtime.GOMAXPROCS(c.Procs)
	jc := &jitterCov{cov: cov, seed: c.Jitter}
	nodes := featselect.LassoCrdDescPath(nd, jc, lambs, maxIter, tol, corr)
	runtime.GOMAXPROCS(old)
	if !kit.SameSlice(snapL, lambs) || !kit.SameSlice(snapX, X.RawMatrix().Data) || !kit.SameSlice(snapY, y) {
		return fmt.Errorf("the lambdas or the data were changed")
	}
	m := len(lambs)
	if len(nodes) == 0 || len(nodes) > m {
		return fmt.Errorf("%d nodes for %d lambdas", len(nodes), m)
	}
	skipped := m - len(nodes)
	slackOf := func(b []float64) float64 { return 2*float64(c.P)*tol*kit.MaxAbs(b) + 2e-9 }
	for i := 0; i < skipped; i++ {
		// left out: no feature may be selected at this lambda
		l := lambs[m-1-i]
		if l < lmax-2e-9 {
			return fmt.Errorf("no node for lambda %v, which selects features", l)
		}
	}
	if skipped > 0 && len(nodes[0].Selection) == 0 {
		return fmt.Errorf("%d nodes are left out but the first one has no features", skipped)
	}
	if skipped == 0 && len(nodes[0].Selection) == 0 {
		for _, q := range nodes {
			if len(q.Selection) > 0 {
				return fmt.Errorf("a leading node without features is not left out")
			}
		}
		o.Label("all empty")
	}
	nz := 0
	for k, q := range nodes {
		l := lambs[m-1-skipped-k]
		if q.Lamb != l {
			return fmt.Errorf("node %d has lambda %v instead of %v", k, q.Lamb, l)
		}
		b, err := kit.FullVec(c.P, q.Selection, q.Coeff)
		if err != nil {
			return fmt.Errorf("node %d: %w", k, err)
		}
		if !sort.IntsAreSorted(q.Selection) {
			return fmt.Errorf("node %d: selection %v is not ascending", k, q.Selection)
		}
		for i, v := range q.Coeff {
			if v == 0 {
				return fmt.Errorf("node %d: selected feature %d has coefficient 0", k, q.Selection[i])
			}
		}
		if bias && b[0] != 0 {
			return fmt.Errorf("node %d: the constant column is selected", k)
		}
		slack := slackOf(b)
		for j := range b {
			if bias && j == 0 {
				continue
			}
			g := xty[j] - c.Mu*b[j]
			for i := range b {
				g -= S[j][i] * b[i]
			}
			v := math.Abs(g) - l
			if b[j] > 1e-15 {
				v = math.Abs(g - l)
			} else if b[j] < -1e-15 {
				v = math.Abs(g + l)
			}
			if v > slack {
				return fmt.Errorf("node %d (lambda %v): the optimality condition of feature %d is violated by %v: %v", k, l, j, v, b)
			}
		}
		// the same as a single solve
		single := featselect.LassoCrdDesc(nd, l, cov, nil, maxIter, tol, corr)
		for j := range b {
			if !(math.Abs(single[j]-b[j]) <= 4*slack*math.Sqrt(float64(c.P))/ill) {
				return fmt.Errorf("node %d (lambda %v) has %v, a single solve %v", k, l, b, single)
			}
		}
		if len(q.Selection) > 0 {
			nz++
		}
	}
	if m > 1 && nz > 1 {
		o.NonTrivial()
	}
	if m > 10 {
		o.Label("more lambdas than workers")
	}
	if wide {
		o.Label("wide")
	}
	for i := 1; i < m; i++ {
		if lambs[i] == lambs[i-1] {
			o.Label("equal lambdas")
			break
		}
	}
	if skipped > 0 {
		o.Label("left out nodes")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C14",
		Rule:        "A case is a normalised dataset with 8-30 rows and 1-8 columns (or, where the problem is strictly convex anyway, 3-10 rows and 4-12 columns), 1-40 ascending lambdas between 0.0003 and 31 times the largest correlation, lasso or elastic net, a covariance estimate, a tolerance, GOMAXPROCS and a seed that delays the workers. Non-trivial: at least two nodes with features.",
		Assumptions: []string{"smallest eigenvalue of the covariance of the features at least 0.02, or identity covariance, or elastic net of at least 0.05, so that the solves converge", "schedules are sampled by delaying workers in the covariance estimate"},
		Subs:        []kit.Sub{kit.NewSub("path-again", 2500, 50000, gen, kit.Again(run)), kit.NewSub("path", 60000, 1000000, gen, run), kit.NewSub("path-large", 800, 4000, kit.Large(gen), run)}})
}
