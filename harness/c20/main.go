// C20: covariance estimates and thresholding are exact.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type covCase struct {
	N     int       `json:"n"`
	P     int       `json:"p"`
	X     []float64 `json:"x"`
	Shift float64   `json:"shift"`
}

func (c covCase) dense() *mat.Dense { return (&kit.Prob{N: c.N, P: c.P, X: c.X}).Dense() }

func genCov(t *rapid.T) covCase {
	c := covCase{N: kit.Upto(t, 1, 20, 400, "n"), P: kit.Upto(t, 1, 7, 40, "p")}
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	c.Shift = []float64{0, 0, 1, -5, 30}[r.I(5)]
	s := []float64{1e-2, 1, 10}[r.I(3)]
	for i := 0; i < c.N*c.P; i++ {
		c.X = append(c.X, s*r.N()+c.Shift)
	}
	if r.I(3) == 0 {
		// columns of different magnitudes and with different means
		for j := 0; j < c.P; j++ {
			f, d := math.Pow(10, float64(r.I(20)-10)), []float64{0, 0, 1, -5, 30, 1e6}[r.I(6)]
			for i := 0; i < c.N; i++ {
				c.X[i*c.P+j] = f * (c.X[i*c.P+j] + d)
			}
		}
	}
	return c
}

func runCov(c covCase, o *kit.Obs) error {
	X := c.dense()
	cov := featselect.CovarianceMatrix(X)
	emp := (&featselect.Empirical{}).Get(X)
	id := (&featselect.Identity{}).Get(X)
	if !(&kit.Prob{N: c.N, P: c.P, X: c.X}).SameX(X) {
		return fmt.Errorf("the data matrix was changed")
	}
	mu := make([]float64, c.P)
	for j := range mu {
		col := make([]float64, c.N)
		for i := range col {
			col[i] = X.At(i, j)
		}
		mu[j] = kit.MeanRef(col)
	}
	most := make([]float64, c.P)
	for i, v := range c.X {
		most[i%c.P] = math.Max(most[i%c.P], math.Abs(v))
	}
	for _, m := range []mat.Matrix{cov, emp, id} {
		if r, k := m.Dims(); r != c.P || k != c.P {
			return fmt.Errorf("covariance estimate is %dx%d for %d columns", r, k, c.P)
		}
	}
	for a := 0; a < c.P; a++ {
		for b := 0; b < c.P; b++ {
			e, v, scale := 0.0, 0.0, most[a]*most[b]+1e-300
			for i := 0; i < c.N; i++ {
				e += X.At(i, a) * X.At(i, b) / float64(c.N)
				v += (X.At(i, a) - mu[a]) * (X.At(i, b) - mu[b]) / float64(c.N)
			}
			if !(math.Abs(emp.At(a, b)-e) <= 1e-12*scale) {
				return fmt.Errorf("Empirical (%d,%d) is %v instead of %v", a, b, emp.At(a, b), e)
			}
			if !(math.Abs(cov.At(a, b)-v) <= 1e-12*scale) {
				return fmt.Errorf("CovarianceMatrix (%d,%d) is %v instead of %v", a, b, cov.At(a, b), v)
			}
			want := 0.0
			if a == b {
				want = 1
			}
			if id.At(a, b) != want {
				return fmt.Errorf("Identity (%d,%d) is %v", a, b, id.At(a, b))
			}
		}
	}
	if c.P > 1 && c.N > 2 {
		o.NonTrivial()
	}
	return nil
}

type splitCase struct {
	N    int   `json:"n"`
	P    int   `json:"p"`
	Num  int   `json:"num"`
	Reps int   `json:"reps"`
	Seed int64 `json:"seed"`
}

func genSplit(t *rapid.T) splitCase {
	n := rapid.IntRange(2, 20).Draw(t, "n")
	if rapid.IntRange(0, 9).Draw(t, "large") == 0 {
		n = rapid.IntRange(21, 300).Draw(t, "large n")
	}
	c := splitCase{N: n, P: rapid.IntRange(1, 4).Draw(t, "p"), Num: rapid.IntRange(1, n-1).Draw(t, "num"), Reps: rapid.IntRange(1, 5).Draw(t, "reps"), Seed: rapid.Int64().Draw(t, "seed")}
	if n <= 20 && rapid.IntRange(0, 200).Draw(t, "stat") == 0 {
		c.Reps = 3000
	}
	return c
}

func runSplit(c splitCase, o *kit.Obs) error {
	rand.Seed(c.Seed)
	X := mat.NewDense(c.N, c.P, nil)
	for i := 0; i < c.N; i++ {
		for j := 0; j < c.P; j++ {
			X.Set(i, j, float64(1000*j+i+1))
		}
	}
	snap := append([]float64{}, X.RawMatrix().Data...)
	first := make([]float64, c.N)
	var keys []string
	for rep := 0; rep < c.Reps; rep++ {
		a, b := featselect.RandomRowSplit(X, c.Num)
		ra, ca := a.Dims()
		rb, cb := b.Dims()
		if ra != c.Num || rb != c.N-c.Num || ca != c.P || cb != c.P {
			return fmt.Errorf("%d of %d rows: parts of %dx%d and %dx%d", c.Num, c.N, ra, ca, rb, cb)
		}
		seen := make([]bool, c.N)
		key := make([]byte, c.N)
		for k, m := range []*mat.Dense{a, b} {
			nr, _ := m.Dims()
			for i := 0; i < nr; i++ {
				r := int(m.At(i, 0)) - 1
				if r < 0 || r >= c.N || seen[r] {
					return fmt.Errorf("row %v of part %d is not a row of its own of the matrix", mat.Row(nil, i, m), k)
				}
				seen[r] = true
				if k == 0 {
					first[r]++
					key[r] = 1
				}
				for j := 0; j < c.P; j++ {
					if m.At(i, j) != X.At(r, j) {
						return fmt.Errorf("row %d is torn apart: %v", r, mat.Row(nil, i, m))
					}
				}
			}
		}
		keys = append(keys, string(key))
		if rep == 0 {
			a.Set(0, 0, -1)
			b.Set(0, 0, -1)
		}
		if !kit.SameSlice(snap, X.RawMatrix().Data) {
			return fmt.Errorf("the matrix was changed, or shares data with its parts")
		}
	}
	if err := kit.Repeats(keys, kit.LogChoose(c.N, c.Num)); err != nil {
		return fmt.Errorf("splits into %d of %d rows: %w", c.Num, c.N, err)
	}
	if c.Reps >= 1000 {
		N, p := float64(c.Reps), float64(c.Num)/float64(c.N)
		for r, v := range first {
			if z := (v - N*p) / math.Sqrt(N*p*(1-p)); !(math.Abs(z) <= 7) {
				return fmt.Errorf("row %d is in the first part in %v of %v splits, expected a fraction %v", r, v, N, p)
			}
		}
		o.Label("statistical")
	}
	if c.N > 3 {
		o.NonTrivial()
	}
	return nil
}

type thrCase struct {
	N       int       `json:"n"`
	P       int       `json:"p"`
	X       []float64 `json:"x"`
	Step    float64   `json:"step"`
	Samples int       `json:"samples"`
	Seed    int64     `json:"seed"`
}

func genThr(t *rapid.T) thrCase {
	c := thrCase{N: rapid.IntRange(4, 25).Draw(t, "n"), P: rapid.IntRange(1, 6).Draw(t, "p"),
		Step: rapid.SampledFrom([]float64{0.3, 0.5, 1, 1.5, 3}).Draw(t, "step"), Samples: 600, Seed: rapid.Int64().Draw(t, "seed")}
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	base := []float64{0.03, 0.1, 0.3, 1}[r.I(4)]
	mix := r.I(2) == 0
	common := r.I(3) == 0
	for i := 0; i < c.N; i++ {
		z := r.N()
		for j := 0; j < c.P; j++ {
			s := base
			if mix {
				s = base * math.Pow(2, -float64(j))
			}
			v := r.N()
			if common && j%2 == 1 {
				v = 0.9*z + 0.4*v
			}
			c.X = append(c.X, s*v)
		}
	}
	return c
}

func grid(step float64) []float64 {
	var g []float64
	for k := 0; k < int(9/step); k++ {
		g = append(g, math.Exp(-10+float64(k)*step))
	}
	return g
}

// probe finds which values an operator removes; returns the grid point.
func probe(op *featselect.ThresholdOperator, g []float64) (int, error) {
	n := len(g)
	m := mat.NewDense(4, n, nil)
	for k, v := range g {
		m.Set(0, k, v*(1-1e-9))
		m.Set(1, k, v*(1+1e-9))
		m.Set(2, k, -v*(1-1e-9))
		m.Set(3, k, -v*(1+1e-9))
	}
	q := mat.DenseCopyOf(m)
	op.Apply(q)
	at := -1
	for k := range g {
		for s := 0; s < 4; s += 2 {
			lo, hi := q.At(s, k), q.At(s+1, k)
			if (lo != 0 && lo != m.At(s, k)) || (hi != 0 && hi != m.At(s+1, k)) {
				return 0, fmt.Errorf("Apply changed %v to %v, %v to %v", m.At(s, k), lo, m.At(s+1, k), hi)
			}
			if lo == 0 && hi != 0 {
				if at >= 0 && at != k {
					return 0, fmt.Errorf("Apply is not a threshold: removes %v but not %v, and %v but not %v", m.At(0, k), m.At(1, k), m.At(0, at), m.At(1, at))
				}
				at = k
			}
			if lo != 0 && hi == 0 {
				return 0, fmt.Errorf("Apply removes %v but not %v", hi, lo)
			}
		}
	}
	if at < 0 {
		return 0, fmt.Errorf("the threshold is not one of the grid exp(-10 + i*step)")
	}
	for k := range g {
		for s := 0; s < 4; s++ {
			if removed := q.At(s, k) == 0; removed != (math.Abs(m.At(s, k)) < g[at]) {
				return 0, fmt.Errorf("threshold %v: %v is kept or removed wrongly", g[at], m.At(s, k))
			}
		}
	}
	return at, nil
}

// edge checks the values next to the threshold, where it can be read off:
// entries below it in magnitude are removed, others are not.
func edge(op *featselect.ThresholdOperator) error {
	f := reflect.ValueOf(op).Elem().FieldByName("threshold")
	if f.Kind() != reflect.Float64 {
		return nil
	}
	t := f.Float()
	m := mat.NewDense(2, 3, []float64{t, math.Nextafter(t, 0), math.Nextafter(t, 1e9), -t, -math.Nextafter(t, 0), -math.Nextafter(t, 1e9)})
	q := mat.DenseCopyOf(m)
	op.Apply(q)
	for i := 0; i < 2; i++ {
		for j := 0; j < 3; j++ {
			want := m.At(i, j)
			if j == 1 {
				want = 0
			}
			if q.At(i, j) != want {
				return fmt.Errorf("threshold %v: Apply made %v of %v", t, q.At(i, j), m.At(i, j))
			}
		}
	}
	return nil
}

// losses returns, per split, the deviation for every grid point.
func losses(c thrCase, g []float64, reps int, r *kit.Rng) [][]float64 {
	n1 := int(float64(c.N) * (1 - 1/math.Log(float64(c.N))))
	cov := func(rows []int) []float64 {
		m := float64(len(rows))
		mu := make([]float64, c.P)
		for _, i := range rows {
			for j := range mu {
				mu[j] += c.X[i*c.P+j] / m
			}
		}
		s := make([]float64, c.P*c.P)
		for _, i := range rows {
			for a := 0; a < c.P; a++ {
				for b := 0; b < c.P; b++ {
					s[a*c.P+b] += (c.X[i*c.P+a] - mu[a]) * (c.X[i*c.P+b] - mu[b]) / m
				}
			}
		}
		return s
	}
	out := make([][]float64, reps)
	for q := range out {
		p := r.Perm(c.N)
		s1, s2 := cov(p[:n1]), cov(p[n1:])
		out[q] = make([]float64, len(g))
		for k, t := range g {
			d := 0.0
			for i := range s1 {
				v := s1[i]
				if math.Abs(v) < t {
					v = 0
				}
				d += (v - s2[i]) * (v - s2[i])
			}
			out[q][k] = math.Sqrt(d)
		}
	}
	return out
}

func optimal(c thrCase, g []float64, k, samples int, o *kit.Obs) error {
	const reps = 600
	L := losses(c, g, reps, kit.NewRng(uint64(c.Seed)+99))
	mean := make([]float64, len(g))
	for _, l := range L {
		for q, v := range l {
			mean[q] += v / reps
		}
	}
	excluded := 0
	for q := range g {
		if q == k {
			continue
		}
		mu, ss := 0.0, 0.0
		for _, l := range L {
			mu += (l[k] - l[q]) / reps
		}
		mx := 0.0
		for _, l := range L {
			d := l[k] - l[q] - mu
			ss += d * d
			mx = math.Max(mx, math.Abs(d))
		}
		sd := math.Sqrt(ss / (reps - 1))
		slack := 6.5*sd*(1/math.Sqrt(float64(samples))+1/math.Sqrt(reps)) + 1e-9*(1e-9+mean[k])
		// rare large differences that one side may not have met
		slack += mx * 6 / float64(samples)
		if mu > slack {
			return fmt.Errorf("threshold %v has expected deviation %v, but %v has %v (difference %v, limit %v)", g[k], mean[k], g[q], mean[q], mu, slack)
		}
		if -mu > slack {
			excluded++
		}
	}
	if excluded > 0 {
		o.NonTrivial()
	}
	return nil
}

func runThr(c thrCase, o *kit.Obs) error {
	rand.Seed(c.Seed)
	X := (&kit.Prob{N: c.N, P: c.P, X: c.X}).Dense()
	op := featselect.L2ConsistentCovTO(X, c.Samples, 1, c.Step)
	if !(&kit.Prob{N: c.N, P: c.P, X: c.X}).SameX(X) {
		return fmt.Errorf("the data matrix was changed")
	}
	g := grid(c.Step)
	k, err := probe(op, g)
	if err != nil {
		return err
	}
	// an operator can be used again and gives the same on any matrix
	r := kit.NewRng(uint64(c.Seed))
	nr, nc := 1+r.I(12), 1+r.I(12)
	if r.I(2) == 0 {
		nc = nr
	}
	m := mat.NewDense(nr, nc, nil)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			m.Set(i, j, g[k]*2*r.N())
			if j < i && j < nr && i < nc && r.I(3) == 0 {
				m.Set(i, j, m.At(j, i))
			}
		}
	}
	q := mat.DenseCopyOf(m)
	op.Apply(q)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			want := m.At(i, j)
			if math.Abs(want) < g[k]*(1-1e-12) {
				want = 0
			} else if math.Abs(want) < g[k]*(1+1e-12) {
				continue
			}
			if q.At(i, j) != want {
				return fmt.Errorf("threshold %v: Apply made %v of %v", g[k], q.At(i, j), m.At(i, j))
			}
		}
	}
	if err := edge(op); err != nil {
		return err
	}
	o.Label(fmt.Sprintf("step %v", c.Step))
	return optimal(c, g, k, c.Samples, o)
}

type choiceCase struct{ thrCase }

// genChoice draws data for which the choice depends on the splits.
func genChoice(t *rapid.T) choiceCase {
	c := genThr(t)
	for c.N < 6 || c.P < 2 {
		c = thrCase{}
		c = genThr(t)
	}
	c.Samples = rapid.IntRange(1, 40).Draw(t, "few samples")
	return choiceCase{c}
}

// runChoice repeats the search with a given number of splits. How often each
// threshold is chosen has to agree with an independent simulation.
func runChoice(c choiceCase, o *kit.Obs) error {
	const R, B = 60, 1500
	g := grid(c.Step)
	rand.Seed(c.Seed)
	X := (&kit.Prob{N: c.N, P: c.P, X: c.X}).Dense()
	got := make([]int, len(g))
	for i := 0; i < R; i++ {
		k, err := probe(featselect.L2ConsistentCovTO(X, c.Samples, 1, c.Step), g)
		if err != nil {
			return err
		}
		got[k]++
	}
	// ties are resolved either way
	first, last := make([]int, len(g)), make([]int, len(g))
	r := kit.NewRng(uint64(c.Seed) + 7)
	for b := 0; b < B; b++ {
		mean := make([]float64, len(g))
		for _, l := range losses(c.thrCase, g, c.Samples, r) {
			for k, v := range l {
				mean[k] += v
			}
		}
		min := mean[0]
		for _, v := range mean {
			min = math.Min(min, v)
		}
		f, l := -1, -1
		for k, v := range mean {
			if v <= min*(1+1e-9) {
				if f < 0 {
					f = k
				}
				l = k
			}
		}
		first[f]++
		last[l]++
	}
	// f is a probability known to within six standard errors; e of n is too few
	// or too many when a share as far from f is met once in 1e11
	kl := func(p, q float64) float64 {
		d := 0.0
		if p > 0 {
			d += p * math.Log(p/q)
		}
		if p < 1 {
			d += (1 - p) * math.Log((1-p)/(1-q))
		}
		return d
	}
	var e, f, l int
	spread := false
	for k := range g[:len(g)-1] {
		e, f, l = e+got[k], f+first[k], l+last[k]
		p := float64(e) / R
		hi := float64(f) / B
		hi += 6*math.Sqrt(hi*(1-hi)/B) + 20./B
		lo := float64(l) / B
		lo -= 6*math.Sqrt(lo*(1-lo)/B) + 20./B
		if p > hi && hi < 1 && R*kl(p, hi) > 25 || p < lo && lo > 0 && R*kl(p, lo) > 25 {
			return fmt.Errorf("%d splits: the threshold %v or a smaller one was chosen in %d of %d searches, a simulation chooses it in a fraction %v (ties: the last) to %v", c.Samples, g[k], e, R, float64(l)/B, float64(f)/B)
		}
		if f < B*19/20 && l > B/20 {
			spread = true
		}
	}
	if spread {
		o.NonTrivial()
	}
	o.Label(fmt.Sprintf("%d0 splits", c.Samples/10))
	return nil
}

func genSparse(t *rapid.T) thrCase {
	c := genThr(t)
	c.Step, c.Samples = 1, 1000
	return c
}

func runSparse(c thrCase, o *kit.Obs) error {
	rand.Seed(c.Seed)
	X := (&kit.Prob{N: c.N, P: c.P, X: c.X}).Dense()
	sp := featselect.NewSparseThreshold(X)
	got := sp.Get(X)
	again := sp.Get(mat.DenseCopyOf(X))
	if !(&kit.Prob{N: c.N, P: c.P, X: c.X}).SameX(X) {
		return fmt.Errorf("the data matrix was changed")
	}
	if !mat.Equal(got, again) {
		return fmt.Errorf("a second call gives another estimate")
	}
	emp := (&featselect.Empirical{}).Get(X)
	g := grid(1)
	var cand []int
	for k, t := range g {
		ok := true
		for i := 0; i < c.P; i++ {
			for j := 0; j < c.P; j++ {
				e := emp.At(i, j)
				if math.Abs(math.Abs(e)-t) < 1e-12*t {
					return kit.ErrSkip
				}
				if math.Abs(e) < t {
					e = 0
				}
				if !(math.Abs(got.At(i, j)-e) <= 1e-13*(1e-9+math.Abs(e))) || (e == 0) != (got.At(i, j) == 0) {
					ok = false
				}
			}
		}
		if ok {
			cand = append(cand, k)
		}
	}
	if len(cand) == 0 {
		return fmt.Errorf("the estimate is not the empirical covariance with a threshold of the grid: %v from %v", mat.Formatted(got), mat.Formatted(emp))
	}
	// one of the thresholds that give this estimate is optimal
	var err error
	for _, k := range cand {
		if err = optimal(c, g, k, 1000, o); err == nil {
			break
		}
	}
	if err != nil {
		return err
	}
	other := mat.DenseCopyOf(X)
	other.Set(0, 0, other.At(0, 0)+1)
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		sp.Get(other)
		return
	}()
	if !panicked {
		return fmt.Errorf("the estimate is given for another matrix than it was made for")
	}
	return nil
}

// The deviation that the search minimises: a thresholded matrix from another one.
type devCase struct {
	R    int       `json:"r"`
	C    int       `json:"c"`
	A    []float64 `json:"a"`
	B    []float64 `json:"b"`
	Step float64   `json:"step"`
	Idx  int       `json:"idx"`
}

func genDev(t *rapid.T) devCase {
	c := devCase{R: kit.Upto(t, 1, 8, 60, "r"), Step: rapid.SampledFrom([]float64{0.05, 0.1, 0.5, 1, 3}).Draw(t, "step")}
	c.C = c.R
	c.Idx = rapid.IntRange(0, int(9/c.Step)-1).Draw(t, "idx")
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	thr := math.Exp(-10 + float64(c.Idx)*c.Step)
	for i := 0; i < c.R*c.C; i++ {
		a := r.N()
		switch r.I(4) {
		case 0:
			a *= thr
		case 1:
			a = thr * (1 + 1e-6*r.N())
		case 2:
			a = -math.Abs(a) * thr * 2
		}
		c.A, c.B = append(c.A, a), append(c.B, r.N()*thr)
	}
	return c
}

func runDev(c devCase, o *kit.Obs) error {
	A := (&kit.Prob{N: c.R, P: c.C, X: c.A}).Dense()
	B := (&kit.Prob{N: c.R, P: c.C, X: c.B}).Dense()
	res := make(chan featselect.ValueGridPt, 4)
	featselect.CalculateFNormDiff(A, B, c.Idx, c.Step, res)
	thr, sum, cut := math.Exp(-10+float64(c.Idx)*c.Step), 0.0, 0
	for i := range c.A {
		a := c.A[i]
		if math.Abs(math.Abs(a)-thr) <= 1e-12*thr {
			return kit.ErrSkip
		}
		if math.Abs(a) < thr {
			a = 0
			cut++
		}
		sum += (a - c.B[i]) * (a - c.B[i])
	}
	want := fmt.Sprintf("{%.9g %d}", math.Sqrt(sum), c.Idx)
	if len(res) != 1 {
		return fmt.Errorf("%d results were sent", len(res))
	}
	v := reflect.ValueOf(<-res)
	got, gr := v.FieldByName("value").Float(), v.FieldByName("gridPt").Int()
	if !(math.Abs(got-math.Sqrt(sum)) <= 1e-10*math.Sqrt(sum)) || gr != int64(c.Idx) {
		return fmt.Errorf("deviation {%v %d}, want %s", got, gr, want)
	}
	if !(&kit.Prob{N: c.R, P: c.C, X: c.A}).SameX(A) || !(&kit.Prob{N: c.R, P: c.C, X: c.B}).SameX(B) {
		return fmt.Errorf("a matrix was changed")
	}
	if cut > 0 && cut < len(c.A) {
		o.NonTrivial()
	}
	o.Label("deviation")
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C20",
		Rule:        "cov: 1-20 rows, 1-7 columns with a common shift. split: a matrix of distinct rows and a number of rows, a small part with 3000 repetitions for the frequencies. threshold/sparse: 4-25 rows of 1-6 (partly correlated) columns of different scales and a grid step. deviation: two matrices of up to 60 columns and a grid point, entries around the threshold. choice: such data searched 60 times with 1-40 splits, compared with 1500 simulated searches. Non-trivial: more than one column / more than three rows / at least one grid point whose expected deviation is significantly worse / the simulated choice varies.",
		Assumptions: []string{"statistical assertions have a limit of 7 standard errors (seeded by the case)"},
		Subs: []kit.Sub{kit.NewSub("cov-again", 4000, 60000, genCov, kit.Again(runCov)), kit.NewSub("cov", 60000, 1000000, genCov, runCov), kit.NewSub("cov-large", 2000, 10000, kit.Large(genCov), runCov), kit.NewSub("split", 30000, 300000, genSplit, runSplit),
			kit.NewSub("threshold", 1200, 20000, genThr, runThr), kit.NewSub("deviation", 6000, 100000, genDev, runDev), kit.NewSub("choice", 150, 3000, genChoice, runChoice), kit.NewSub("sparse-again", 24, 500, genSparse, kit.Again(runSparse)), kit.NewSub("sparse", 250, 5000, genSparse, runSparse)}})
}
