// C19: Cohen's kappa is computed and searched correctly.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

// kappaRef is Cohen's kappa of the two binary ratings of tot features.
func kappaRef(a, b []int, tot int) float64 {
	x, y := make([]bool, tot), make([]bool, tot)
	for _, v := range a {
		x[v] = true
	}
	for _, v := range b {
		y[v] = true
	}
	agree, na, nb := 0, 0, 0
	for i := range x {
		if x[i] == y[i] {
			agree++
		}
		if x[i] {
			na++
		}
		if y[i] {
			nb++
		}
	}
	if agree == tot {
		return 1
	}
	t := float64(tot)
	po := float64(agree) / t
	pe := (float64(na)/t)*(float64(nb)/t) + (float64(tot-na)/t)*(float64(tot-nb)/t)
	return (po - pe) / (1 - pe)
}

type pairCase struct {
	Tot int   `json:"tot"`
	A   []int `json:"a"`
	B   []int `json:"b"`
}

func subset(r *kit.Rng, tot int) []int {
	out := []int{}
	switch r.I(6) {
	case 0:
	case 1:
		out = r.Perm(tot)
	default:
		out = r.Perm(tot)[:r.I(tot+1)]
	}
	return out
}

func genPair(t *rapid.T) pairCase {
	c := pairCase{Tot: kit.Upto(t, 1, 30, 400, "tot")}
	r := kit.NewRng(rapid.Uint64().Draw(t, "sets"))
	c.A, c.B = subset(r, c.Tot), subset(r, c.Tot)
	if kit.IsLarge() && r.I(12) == 0 {
		// few of very many
		c.Tot = 1<<uint(13+r.I(6)) + r.I(5) - 2
		pick := func() []int {
			in := map[int]bool{}
			s := []int{}
			for k := 1 + r.I(40); k > 0; k-- {
				v := r.I(c.Tot)
				if r.I(3) > 0 {
					v = c.Tot - 1 - r.I(60)
				}
				if !in[v] {
					in[v] = true
					s = append(s, v)
				}
			}
			return s
		}
		c.A, c.B = pick(), pick()
		return c
	}
	switch r.I(6) {
	case 0: // equal sets in another order
		c.B = append([]int{}, c.A...)
		for i, k := range r.Perm(len(c.A)) {
			c.B[i] = c.A[k]
		}
	case 1: // complement
		in := map[int]bool{}
		for _, v := range c.A {
			in[v] = true
		}
		c.B = []int{}
		for i := 0; i < c.Tot; i++ {
			if !in[i] {
				c.B = append(c.B, i)
			}
		}
	}
	return c
}

func (c pairCase) Smaller() []pairCase {
	var out []pairCase
	drop := func(l []int, i int) []int { return append(append([]int{}, l[:i]...), l[i+1:]...) }
	for i := range c.A {
		out = append(out, pairCase{c.Tot, drop(c.A, i), c.B})
	}
	for i := range c.B {
		out = append(out, pairCase{c.Tot, c.A, drop(c.B, i)})
	}
	return out
}

func runPair(c pairCase, o *kit.Obs) error {
	sa, sb := append([]int{}, c.A...), append([]int{}, c.B...)
	k := featselect.CohenKappa(c.A, c.B, c.Tot)
	if !kit.SameInts(sa, c.A) || !kit.SameInts(sb, c.B) {
		return fmt.Errorf("CohenKappa changed the sets")
	}
	want := kappaRef(c.A, c.B, c.Tot)
	tol := 1e-12 + 4e-15*float64(c.Tot)
	if !kit.Close(k, want, tol) {
		return fmt.Errorf("CohenKappa(%v, %v, %d) = %v, the definition gives %v", c.A, c.B, c.Tot, k, want)
	}
	if k2 := featselect.CohenKappa(c.B, c.A, c.Tot); !kit.Close(k2, k, tol) {
		return fmt.Errorf("CohenKappa is not symmetric: %v and %v", k, k2)
	}
	if k > 1+tol || k < -1-tol {
		return fmt.Errorf("kappa %v", k)
	}
	x, y := append([]int{}, c.A...), append([]int{}, c.B...)
	sort.Ints(x)
	sort.Ints(y)
	if kit.SameInts(x, y) {
		if !kit.Close(k, 1, 1e-15) {
			return fmt.Errorf("kappa of equal sets is %v", k)
		}
		o.Label("equal sets")
	}
	if k < 0 {
		o.Label("negative")
	}
	if len(c.A) > 0 && len(c.B) > 0 {
		o.NonTrivial()
	}
	return nil
}

// mock is a target that records what it is asked.
type mock struct {
	nr, nc int
	id     int
	sel    func(call int) []int
	calls  [][]int
	busy   int32
	clash  int32
	jitter uint64
	wreck  bool // scribble over the indices that were passed
	lock   sync.Mutex
	hyper  map[string]float64
	fresh  bool // hyperparameters are a new map in every call
}

func (m *mock) GetX() mat.Matrix { return mat.NewDense(m.nr, m.nc, nil) }
func (m *mock) GetSelection(idx []int) []int {
	if !atomic.CompareAndSwapInt32(&m.busy, 0, 1) {
		atomic.StoreInt32(&m.clash, 1)
	}
	k := len(m.calls)
	m.calls = append(m.calls, append([]int{}, idx...))
	r := kit.NewRng(m.jitter + uint64(k))
	if m.jitter != 0 {
		for q := r.I(6); q > 0; q-- {
			runtime.Gosched()
		}
	}
	atomic.StoreInt32(&m.busy, 0)
	return m.sel(k)
}
func (m *mock) HyperParameters() map[string]float64 {
	m.lock.Lock()
	defer m.lock.Unlock()
	if m.hyper == nil {
		m.hyper = map[string]float64{"id": float64(m.id), "lamb": 0.5 * float64(m.id)}
	}
	if m.fresh {
		return map[string]float64{"id": float64(m.id), "lamb": 0.5 * float64(m.id)}
	}
	return m.hyper
}
func (m *mock) StringRep() string { return fmt.Sprintf("mock %d", m.id) }

func (m *mock) checkCalls(samples int) error {
	if h := m.hyper; h != nil && (len(h) != 2 || h["id"] != float64(m.id) || h["lamb"] != 0.5*float64(m.id)) {
		return fmt.Errorf("the hyperparameters of target %d were changed to %v", m.id, h)
	}
	if m.clash != 0 {
		return fmt.Errorf("target %d was used by two workers at the same time", m.id)
	}
	if len(m.calls) != 2*samples {
		return fmt.Errorf("target %d was asked for %d selections, expected 2 for each of %d samples", m.id, len(m.calls), samples)
	}
	for s := 0; s < samples; s++ {
		a, b := m.calls[2*s], m.calls[2*s+1]
		if d := len(a) - len(b); d < -1 || d > 1 {
			return fmt.Errorf("sample %d is split into parts of %d and %d rows", s, len(a), len(b))
		}
		seen := make([]bool, m.nr)
		for _, v := range append(append([]int{}, a...), b...) {
			if v < 0 || v >= m.nr || seen[v] {
				return fmt.Errorf("sample %d: the halves %v and %v are not disjoint rows of %d", s, a, b, m.nr)
			}
			seen[v] = true
		}
		if len(a)+len(b) != m.nr {
			return fmt.Errorf("sample %d: the halves %v and %v do not contain all %d rows", s, a, b, m.nr)
		}
	}
	// every sample is split anew
	var keys []string
	size := len(m.calls[0])
	for s := 0; s < samples; s++ {
		in := append([]int{}, m.calls[2*s]...)
		if len(in) != size {
			return nil // the halves differ by one row and either may come first
		}
		sort.Ints(in)
		keys = append(keys, fmt.Sprint(in))
	}
	if err := kit.Repeats(keys, kit.LogChoose(m.nr, size)); err != nil {
		return fmt.Errorf("splits of target %d into %d of %d rows: %w", m.id, size, m.nr, err)
	}
	return nil
}

type meanCase struct {
	Nr      int    `json:"nr"`
	Nc      int    `json:"nc"`
	Samples int    `json:"samples"`
	Seed    uint64 `json:"seed"`
}

func genMean(t *rapid.T) meanCase {
	return meanCase{kit.Upto(t, 2, 30, 300, "nr"), kit.Upto(t, 1, 15, 100, "nc"), kit.Upto(t, 1, 30, 300, "samples"), rapid.Uint64().Draw(t, "seed")}
}

func runMean(c meanCase, o *kit.Obs) error {
	rand.Seed(int64(c.Seed))
	m := &mock{nr: c.Nr, nc: c.Nc}
	m.sel = func(k int) []int { return subset(kit.NewRng(c.Seed+uint64(k)*31), c.Nc) }
	k := featselect.GetCohensKappa(c.Samples, m)
	if err := m.checkCalls(c.Samples); err != nil {
		return err
	}
	want := 0.0
	for s := 0; s < c.Samples; s++ {
		want += kappaRef(m.sel(2*s), m.sel(2*s+1), c.Nc) / float64(c.Samples)
	}
	if !kit.Close(k, want, 1e-10) {
		return fmt.Errorf("mean kappa %v instead of %v", k, want)
	}
	if c.Nr >= 10 && c.Samples >= 8 {
		varies := false
		key := func(l []int) string {
			s := append([]int{}, l...)
			sort.Ints(s)
			return fmt.Sprint(s)
		}
		for s := 1; s < c.Samples; s++ {
			if key(m.calls[2*s]) != key(m.calls[0]) {
				varies = true
			}
		}
		if !varies {
			return fmt.Errorf("all %d splits are the same", c.Samples)
		}
		o.NonTrivial()
	}
	return nil
}

// the splits are uniformly random
func genUniform(t *rapid.T) meanCase {
	return meanCase{rapid.IntRange(2, 14).Draw(t, "nr"), 3, 4000, rapid.Uint64().Draw(t, "seed")}
}

func runUniform(c meanCase, o *kit.Obs) error {
	rand.Seed(int64(c.Seed))
	m := &mock{nr: c.Nr, nc: c.Nc, sel: func(int) []int { return []int{0} }}
	if k := featselect.GetCohensKappa(c.Samples, m); !kit.Close(k, 1, 1e-9) {
		return fmt.Errorf("kappa %v for identical selections", k)
	}
	if err := m.checkCalls(c.Samples); err != nil {
		return err
	}
	n := c.Nr
	first := make([]float64, n)
	pair := make([]float64, n*n)
	h := 0
	for s := 0; s < c.Samples; s++ {
		a := m.calls[2*s]
		h = len(a)
		for _, i := range a {
			first[i]++
			for _, j := range a {
				pair[i*n+j]++
			}
		}
	}
	N := float64(c.Samples)
	p := float64(h) / float64(n)
	q := p * float64(h-1) / float64(n-1)
	for i := range first {
		if z := (first[i] - N*p) / math.Sqrt(N*p*(1-p)); !(math.Abs(z) <= 7) {
			return fmt.Errorf("row %d is in the first part in %v of %v splits, expected a fraction %v", i, first[i], N, p)
		}
		for j := 0; j < i; j++ {
			if sd := math.Sqrt(N * q * (1 - q)); !(math.Abs(pair[i*n+j]-N*q) <= 7*sd+1) {
				return fmt.Errorf("rows %d and %d are together in the first part in %v of %v splits, expected a fraction %v", i, j, pair[i*n+j], N, q)
			}
		}
	}
	o.NonTrivial()
	return nil
}

type seqCase struct {
	Nr      int    `json:"nr"`
	Nc      int    `json:"nc"`
	Samples int    `json:"samples"`
	Targets int    `json:"targets"`
	Neg     bool   `json:"neg"` // only targets with negative or zero kappa
	Procs   int    `json:"procs"`
	Seed    uint64 `json:"seed"`
}

func (c seqCase) Smaller() []seqCase {
	var out []seqCase
	if c.Targets > 1 {
		d := c
		d.Targets--
		out = append(out, d)
		d.Targets = c.Targets / 2
		if d.Targets > 0 {
			out = append(out, d)
		}
	}
	if c.Samples > 1 {
		d := c
		d.Samples = 1
		out = append(out, d)
	}
	return out
}

func genSeq(t *rapid.T) seqCase {
	return seqCase{Nr: kit.Upto(t, 2, 12, 120, "nr"), Nc: kit.Upto(t, 2, 9, 60, "nc"),
		Samples: kit.Upto(t, 1, 6, 40, "samples"),
		Targets: rapid.SampledFrom([]int{1, 2, 3, 5, 15, 16, 17, 18, 33, 50}).Draw(t, "targets"),
		Neg:     rapid.IntRange(0, 2).Draw(t, "neg") == 0, Procs: rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"), Seed: rapid.Uint64().Draw(t, "seed")}
}

func runSeq(c seqCase, o *kit.Obs) error {
	var ts []featselect.CohensKappaTarget
	var ms []*mock
	var kap []float64
	for i := 0; i < c.Targets; i++ {
		m := &mock{nr: c.Nr, nc: c.Nc, id: i, jitter: c.Seed + uint64(i)*977 + 1, fresh: (c.Seed>>3)&1 == 0}
		s := c.Seed + uint64(i)*7919
		if c.Neg {
			// disjoint selections
			r := kit.NewRng(s)
			p := r.Perm(c.Nc)
			a := 1 + r.I(c.Nc-1)
			m.sel = func(k int) []int {
				if k%2 == 0 {
					return append([]int{}, p[:a]...)
				}
				return append([]int{}, p[a:]...)
			}
		} else {
			m.sel = func(k int) []int { return subset(kit.NewRng(s+uint64(k)*131), c.Nc) }
		}
		v := 0.0
		for k := 0; k < c.Samples; k++ {
			v += kappaRef(m.sel(2*k), m.sel(2*k+1), c.Nc) / float64(c.Samples)
		}
		kap = append(kap, v)
		ms = append(ms, m)
		ts = append(ts, m)
	}
	old := runtime.GOMAXPROCS(c.Procs)
	h := featselect.CalculateCohenSequence(c.Samples, ts)
	runtime.GOMAXPROCS(old)
	for _, m := range ms {
		if err := m.checkCalls(c.Samples); err != nil {
			return err
		}
	}
	best := math.Inf(-1)
	for _, v := range kap {
		best = math.Max(best, v)
	}
	id, ok := h["id"]
	if !ok || id != math.Trunc(id) || id < 0 || int(id) >= len(kap) || h["lamb"] != 0.5*id || len(h) != 2 {
		return fmt.Errorf("hyperparameters %v are not those of a target (kappas %v)", h, kap)
	}
	if !(kap[int(id)] >= best-1e-9) {
		return fmt.Errorf("target %d with kappa %v is returned, the highest is %v", int(id), kap[int(id)], best)
	}
	if c.Targets > 1 {
		o.NonTrivial()
	}
	if best <= 0 {
		o.Label("no positive kappa")
	}
	if c.Targets > 16 {
		o.Label("more targets than workers")
	}
	return nil
}

type lassoCase struct {
	kit.Prob
	Lamb  float64  `json:"lamb"`
	Eta   float64  `json:"eta"` // 0: pure lasso
	Seeds []uint64 `json:"seeds"`
}

func (c lassoCase) Smaller() []lassoCase {
	var out []lassoCase
	for i := range c.Seeds {
		if len(c.Seeds) > 1 {
			d := c
			d.Seeds = append(append([]uint64{}, c.Seeds[:i]...), c.Seeds[i+1:]...)
			out = append(out, d)
		}
	}
	if c.P > 2 {
		for j := 0; j < c.P; j++ {
			d := c
			d.Prob = c.DropCol(j)
			out = append(out, d)
		}
	}
	return out
}

func genLasso(t *rapid.T) lassoCase {
	c := lassoCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 16, MaxN: 40, MinP: 2, MaxP: 6, BigN: 200, BigP: 18, Shape: 1, MinNoise: 0.1, Kinds: []string{"gauss", "gauss", "corr", "int"}})}
	c.Lamb = rapid.SampledFrom([]float64{0.001, 0.02, 0.1, 0.2, 0.4, 0.9, 2}).Draw(t, "lamb")
	if rapid.IntRange(0, 2).Draw(t, "classo") == 0 {
		c.Eta = rapid.Float64Range(0.05, 0.4).Draw(t, "eta")
	}
	n := rapid.IntRange(1, 5).Draw(t, "calls")
	for i := 0; i < n; i++ {
		c.Seeds = append(c.Seeds, rapid.Uint64().Draw(t, "rows"))
	}
	return c
}

func runLasso(c lassoCase, o *kit.Obs) error {
	if kit.StdRef(c.Y) < 1e-6 || c.N < c.P+4 {
		return kit.ErrSkip
	}
	X, y := c.Dense(), c.Target()
	nd := featselect.NewNormalizedData(X, y)
	var tgt featselect.CohensKappaTarget
	if c.Eta > 0 {
		q := featselect.NewCLassoCohen()
		q.Eta = c.Eta
		q.PLasso.Dset, q.PLasso.Lamb, q.PLasso.Cov, q.PLasso.MaxIter, q.PLasso.Tol = nd, c.Lamb, &featselect.Empirical{}, 40000, 1e-9
		q.PLasso.Correction = featselect.NewCLasso(c.P, c.Eta)
		tgt = q
	} else {
		q := featselect.NewPureLassoCohen()
		q.Dset, q.Lamb, q.Cov, q.MaxIter, q.Tol, q.Correction = nd, c.Lamb, &featselect.Empirical{}, 40000, 1e-9, &featselect.PureLasso{}
		tgt = q
	}
	if tgt.GetX() == nil || !mat.Equal(tgt.GetX(), X) {
		return fmt.Errorf("GetX does not return the design matrix")
	}
	h := tgt.HyperParameters()
	if h["lamb"] != c.Lamb || h["eta"] != c.Eta || (c.Eta == 0 && len(h) != 1) {
		return fmt.Errorf("hyperparameters %v instead of lambda %v, eta %v", h, c.Lamb, c.Eta)
	}
	snapX, snapY := append([]float64{}, X.RawMatrix().Data...), append([]float64{}, y...)
	some, none := false, false
	cols := kit.Cols{}
	for j := 0; j < c.P; j++ {
		col := make([]float64, c.N)
		for i := range col {
			col[i] = X.At(i, j)
		}
		cols = append(cols, col)
	}
	for k, seed := range c.Seeds {
		r := kit.NewRng(seed)
		rows := r.Perm(c.N)[:c.P+4+r.I(c.N-c.P-3)]
		snap := append([]int{}, rows...)
		sub := make(kit.Cols, c.P)
		suby := make([]float64, len(rows))
		for j := range sub {
			sub[j] = make([]float64, len(rows))
			for i, q := range rows {
				sub[j][i] = cols[j][q]
				suby[i] = snapY[q]
			}
		}
		if kit.StdRef(suby) < 1e-3 {
			return kit.ErrSkip
		}
		B, z, bias := kit.NormRef(sub, suby)
		var act []int
		for j := range B {
			if !(bias && j == 0) {
				act = append(act, j)
			}
		}
		sv := kit.SingularValues(B.Pick(act))
		m := float64(len(rows))
		curv := sv[len(sv)-1] * sv[len(sv)-1] / m
		if curv < 0.03 {
			return kit.ErrSkip
		}
		sel := tgt.GetSelection(rows)
		if !kit.SameInts(snap, rows) {
			return fmt.Errorf("call %d changed the rows", k)
		}
		if !kit.SameSlice(snapX, X.RawMatrix().Data) || !kit.SameSlice(snapY, y) {
			return fmt.Errorf("call %d changed the data", k)
		}
		// reference solution: coordinate descent until convergence
		b := make([]float64, c.P)
		for it := 0; it < 100000; it++ {
			ch := 0.0
			for _, j := range act {
				g := 0.0
				for i := range z {
					e := z[i]
					for _, q := range act {
						if q != j {
							e -= B[q][i] * b[q]
						}
					}
					g += B[j][i] * e
				}
				g /= m
				v := math.Copysign(math.Max(math.Abs(g)-c.Lamb, 0), g) / ((m-1)/m + c.Eta)
				ch = math.Max(ch, math.Abs(v-b[j]))
				b[j] = v
			}
			if ch < 1e-12 {
				break
			}
		}
		res := append([]float64{}, z...)
		for _, j := range act {
			for i := range res {
				res[i] -= B[j][i] * b[j]
			}
		}
		if c.Eta > 0 && kit.MaxAbs(b) < 1e-3 && kit.MaxAbs(b) > 0 {
			return kit.ErrSkip
		}
		in := map[int]bool{}
		for _, j := range sel {
			if j < 0 || j >= c.P || in[j] {
				return fmt.Errorf("call %d returns %v", k, sel)
			}
			in[j] = true
		}
		for j := range b {
			g := math.Abs(kit.Dot(B[j], res)/m - c.Eta*b[j])
			if !(math.Abs(b[j]) <= 1e-5) && !in[j] {
				return fmt.Errorf("call %d: feature %d has coefficient %v in the lasso on these rows but is not in %v", k, j, b[j], sel)
			}
			if b[j] == 0 && g < c.Lamb-1e-5 && in[j] {
				return fmt.Errorf("call %d: feature %d is not selected by the lasso on these rows but is in %v", k, j, sel)
			}
		}
		if len(sel) > 0 {
			some = true
		}
		if len(sel) < len(act) {
			none = true
		}
	}
	if some && none {
		o.NonTrivial()
	}
	if c.Eta > 0 {
		o.Label("covariance lasso")
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C19",
		Rule:        "pair: two feature subsets (empty, full, equal, complementary and random). mean/uniform: a recording target over 2-30 rows. sequence: 1-50 recording targets with known kappas (a third of the cases without a positive one), random delays and GOMAXPROCS. lasso: a lasso target asked for up to five random row subsets. Non-trivial: both sets non-empty / splits of at least 10 rows / at least two targets / some but not all features selected.",
		Assumptions: []string{"uniformity of the splits is a statistical test with limit 7 standard deviations", "lasso: features whose coefficient or optimality condition is within 1e-5 of the border may be selected or not"},
		Subs: []kit.Sub{kit.NewSub("pair", 200000, 4000000, genPair, runPair), kit.NewSub("pair-large", 6000, 30000, kit.Large(genPair), runPair), kit.NewSub("mean-large", 400, 2000, kit.Large(genMean), runMean), kit.NewSub("mean", 40000, 1000000, genMean, runMean),
			kit.NewSub("uniform", 400, 8000, genUniform, runUniform), kit.NewSub("sequence-large", 600, 6000, kit.Large(genSeq), runSeq), kit.NewSub("sequence", 30000, 500000, genSeq, runSeq),
			kit.NewSub("lasso-again", 2000, 40000, genLasso, kit.Again(runLasso)), kit.NewSub("lasso", 30000, 500000, genLasso, runLasso), kit.NewSub("lasso-large", 1200, 10000, kit.Large(genLasso), runLasso)}})
}
