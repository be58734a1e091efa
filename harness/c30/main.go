// C30: concurrent use is race-free and leaves nothing behind.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

// featGoroutines counts the goroutines that run code of the library.
func featGoroutines() (int, string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n, sample := 0, ""
	for _, g := range strings.Split(string(buf), "\n\n")[1:] {
		if strings.Contains(g, "goselect/featselect.") {
			n++
			sample = g
		}
	}
	return n, sample
}

// settle waits until the goroutines of the library are gone.
func settle(what string) error {
	var n int
	var sample string
	for k := 0; k < 400; k++ {
		if n, sample = featGoroutines(); n == 0 {
			return nil
		}
		if k < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(k) * 200 * time.Microsecond)
		}
	}
	if len(sample) > 800 {
		sample = sample[:800]
	}
	return fmt.Errorf("%d goroutines are left after %s returned: %s", n, what, sample)
}

// ---- a search that is observed ----

type watchCase struct {
	kit.SearchCase
	Watchers int `json:"watchers"`
	Pause    int `json:"pause"` // yields between observations
}

func (c watchCase) Smaller() []watchCase {
	var out []watchCase
	if c.Watchers > 1 {
		d := c
		d.Watchers = 1
		out = append(out, d)
	}
	for _, s := range c.SearchCase.Smaller() {
		d := c
		d.SearchCase = s
		out = append(out, d)
	}
	return out
}

func genWatch(t *rapid.T) watchCase {
	return watchCase{kit.GenSearch(t, 6), rapid.IntRange(1, 3).Draw(t, "watchers"), rapid.SampledFrom([]int{0, 1, 5}).Draw(t, "pause")}
}

type listJSON struct {
	MaxItems int `json:"maxItems"`
	Items    []struct {
		Score float64 `json:"score"`
	} `json:"items"`
}

func checkScores(s []float64, capacity int) error {
	if len(s) > capacity {
		return fmt.Errorf("%d scores were listed, the capacity is %d", len(s), capacity)
	}
	for i := 1; i < len(s); i++ {
		if !(s[i] <= s[i-1]) {
			return fmt.Errorf("the scores %v are not in descending order", s)
		}
	}
	return nil
}

type watcher struct {
	views int
	err   error
}

func (w *watcher) watch(h *featselect.Highscore, sp *featselect.SearchProgress, capacity, pause int, stop *int32, kind int) {
	defer func() {
		if r := recover(); r != nil {
			w.err = fmt.Errorf("an observer panics: %v", r)
		}
	}()
	best, spBest, explored, length := math.Inf(-1), math.Inf(-1), 0, 0
	pruned := 0.0
	for last := false; ; {
		stopped := atomic.LoadInt32(stop) != 0
		if stopped && last {
			return
		}
		last = stopped
		w.views++
		bs, ne, np := sp.Get()
		if ne < explored {
			w.err = fmt.Errorf("the number of explored models decreased from %d to %d", explored, ne)
			return
		}
		if ne > 0 && bs < spBest {
			w.err = fmt.Errorf("the best score of the progress decreased from %v to %v", spBest, bs)
			return
		}
		if np < pruned-1e-9 {
			w.err = fmt.Errorf("the number of pruned models decreased from 2^%v to 2^%v", pruned, np)
			return
		}
		explored, pruned = ne, np
		if ne > 0 {
			spBest = bs
		}
		n := h.Len()
		s1 := h.Scores()
		b := h.BestScore()
		var s2 []float64
		if kind == 0 {
			s2 = h.Scores()
		} else {
			js, err := json.Marshal(h)
			if err != nil {
				w.err = fmt.Errorf("JSON of the list: %v", err)
				return
			}
			var l listJSON
			if err := json.Unmarshal(js, &l); err != nil {
				w.err = fmt.Errorf("the JSON of the list is not valid: %v", err)
				return
			}
			for _, it := range l.Items {
				s2 = append(s2, it.Score)
			}
		}
		for _, s := range [][]float64{s1, s2} {
			if err := checkScores(s, capacity); err != nil {
				w.err = err
				return
			}
		}
		if n < length || len(s1) < n || len(s2) < len(s1) {
			w.err = fmt.Errorf("the length of the list decreased: %d, %d, %d, %d", length, n, len(s1), len(s2))
			return
		}
		length = len(s2)
		if len(s1) > 0 {
			if s1[0] < best || b < s1[0] || s2[0] < b {
				w.err = fmt.Errorf("the best score decreased: %v, %v, %v, %v", best, s1[0], b, s2[0])
				return
			}
			if ne > 0 && s1[0] < bs {
				w.err = fmt.Errorf("the progress reports the score %v before it is in the list (best %v)", bs, s1[0])
				return
			}
			best = s2[0]
		} else if ne > 0 {
			w.err = fmt.Errorf("%d models are explored, but the list is empty", ne)
			return
		}
		for k := 0; k < pause; k++ {
			runtime.Gosched()
		}
		if pause == 0 && w.views%64 == 0 {
			runtime.Gosched()
		}
	}
}

func runWatch(c watchCase, o *kit.Obs) error {
	fits, shaky := kit.AllModels(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	capacity := c.Cap - 1
	if capacity < 1 {
		capacity = 1
	}
	h := featselect.NewHighscore(c.Cap)
	sp := &featselect.SearchProgress{}
	params := featselect.NewSelectModelOptParams()
	if c.Root != nil {
		params.RootModel = append([]bool{}, c.Root...)
	}
	var stop int32
	var wg sync.WaitGroup
	ws := make([]watcher, c.Watchers)
	for k := range ws {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			ws[k].watch(h, sp, capacity, c.Pause, &stop, k%2)
		}(k)
	}
	dense := c.Dense()
	var X mat.Matrix = dense
	if c.Jitter > 0 {
		X = &kit.JitterMatrix{Matrix: dense, Every: c.Jitter, Yield: runtime.Gosched}
	}
	featselect.SelectModel(X, c.Target(), h, sp, params)
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	views := 0
	for _, w := range ws {
		if w.err != nil {
			return w.err
		}
		views += w.views
	}
	best, arg := c.Best(fits)
	if arg != 0 && !kit.Close(h.BestScore(), -best, kit.ScoreTol) {
		return fmt.Errorf("an observed search finds %v instead of %v", h.BestScore(), -best)
	}
	if err := settle("SelectModel"); err != nil {
		return err
	}
	if views >= 5*c.Watchers {
		o.NonTrivial()
	}
	if len(ws) > 1 {
		o.Label("several observers")
	}
	return nil
}

// ---- the shared structures by themselves ----

type listCase struct {
	Cap     int         `json:"cap"`
	Writers [][]float64 `json:"writers"`
	Readers int         `json:"readers"`
	Jitter  uint64      `json:"jitter"`
}

func (c listCase) Smaller() []listCase {
	var out []listCase
	for i := range c.Writers {
		if len(c.Writers[i]) > 0 {
			d := c
			d.Writers = append([][]float64{}, c.Writers...)
			d.Writers[i] = c.Writers[i][:len(c.Writers[i])/2]
			out = append(out, d)
		}
	}
	return out
}

func genList(t *rapid.T) listCase {
	c := listCase{Cap: rapid.IntRange(1, 12).Draw(t, "cap"), Readers: rapid.IntRange(1, 3).Draw(t, "readers"), Jitter: rapid.Uint64().Draw(t, "jitter")}
	r := kit.NewRng(c.Jitter + 1)
	for k := 0; k < rapid.IntRange(1, 4).Draw(t, "writers"); k++ {
		var s []float64
		for i := 0; i < 1+r.I(30); i++ {
			v := r.N()
			if r.I(4) == 0 {
				v = float64(r.I(5)) // ties
			}
			s = append(s, v)
		}
		c.Writers = append(c.Writers, s)
	}
	return c
}

func runList(c listCase, o *kit.Obs) error {
	capacity := c.Cap - 1
	if capacity < 1 {
		capacity = 1
	}
	h := featselect.NewHighscore(c.Cap)
	other := featselect.NewHighscore(c.Cap)
	for i := 0; i < capacity; i++ {
		n := featselect.NewNode(0, []bool{false, true, false})
		n.Score = float64(i)
		other.Insert(n)
	}
	sp := &featselect.SearchProgress{}
	var stop int32
	var readers, writers sync.WaitGroup
	errs := make([]error, c.Readers)
	for k := 0; k < c.Readers; k++ {
		readers.Add(1)
		go func(k int) {
			defer readers.Done()
			best, length := math.Inf(-1), 0
			for n := 0; atomic.LoadInt32(&stop) == 0; n++ {
				bs, ne, np := sp.Get()
				if int(bs) != ne || int(np) != ne {
					errs[k] = fmt.Errorf("the progress (%v, %d, %v) was never set", bs, ne, np)
					return
				}
				var s []float64
				if (k+n)%3 == 0 {
					js, err := json.Marshal(h)
					var l listJSON
					if err == nil {
						err = json.Unmarshal(js, &l)
					}
					if err != nil {
						errs[k] = err
						return
					}
					for _, it := range l.Items {
						s = append(s, it.Score)
					}
				} else {
					s = h.Scores()
				}
				if errs[k] = checkScores(s, capacity); errs[k] != nil {
					return
				}
				if other.Equal(h) || h.Equal(other) {
					errs[k] = fmt.Errorf("lists of different models are equal")
					return
				}
				if len(s) < length || len(s) > 0 && s[0] < best || len(s) > 0 && h.BestScore() < s[0] || h.Len() < len(s) {
					errs[k] = fmt.Errorf("the list went back: %d scores up to %v after %d up to %v", len(s), s, length, best)
					return
				}
				length = len(s)
				if length > 0 {
					best = s[0]
				}
				runtime.Gosched()
			}
		}(k)
	}
	var all []float64
	for k, s := range c.Writers {
		all = append(all, s...)
		writers.Add(1)
		go func(k int, s []float64) {
			defer writers.Done()
			r := kit.NewRng(c.Jitter + uint64(k)*77)
			for i, v := range s {
				n := featselect.NewNode(k, []bool{true, false})
				n.Score = v
				h.Insert(n)
				q := k*1000 + i
				sp.Set(float64(q), q, float64(q))
				for y := r.I(4); y > 0; y-- {
					runtime.Gosched()
				}
			}
		}(k, s)
	}
	writers.Wait()
	atomic.StoreInt32(&stop, 1)
	readers.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(all)))
	if len(all) > capacity {
		all = all[:capacity]
		o.Label("list full")
	}
	if got := h.Scores(); !kit.SameSlice(got, all) {
		return fmt.Errorf("after all insertions the list is %v, the best scores are %v", got, all)
	}
	if !h.Equal(h) {
		return fmt.Errorf("the list is not equal to itself")
	}
	if len(c.Writers) > 1 {
		o.NonTrivial()
	}
	return nil
}

// ---- calls at the same time on the same data ----

type job struct {
	Kind string  `json:"kind"`
	Arg  float64 `json:"arg"`
	N    int     `json:"n,omitempty"` // lambdas of a path, 0: 13
}

type parCase struct {
	kit.Prob
	Jobs  []job `json:"jobs"`
	Procs int   `json:"procs"`
	First bool  `json:"first,omitempty"` // together before alone
	Twice bool  `json:"twice,omitempty"` // every job by two goroutines
}

func (c parCase) Smaller() []parCase {
	var out []parCase
	for i := range c.Jobs {
		d := c
		d.Jobs = append(append([]job{}, c.Jobs[:i]...), c.Jobs[i+1:]...)
		out = append(out, d)
	}
	for _, q := range c.SmallerProbs(2*c.P + 4) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	return out
}

var kinds = []string{"search", "search", "cdpath", "cdpath", "kappa", "kappa", "threshold", "lars", "cd", "anneal", "brute", "omp", "nested", "fit", "bounds", "dataset", "powers", "csv", "algebra", "helpers", "criteria"}

func genPar(t *rapid.T) parCase {
	c := parCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 14, MaxN: 20, MinP: 4, MaxP: 5, Shape: 1, Bias: 1, MinNoise: 0.3, Kinds: []string{"gauss"}}),
		Procs: rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "procs")}
	for i := 0; i < c.N; i++ {
		c.X[i*c.P] = 1
	}
	n := rapid.IntRange(1, 5).Draw(t, "jobs")
	for k := 0; k < n; k++ {
		c.Jobs = append(c.Jobs, job{rapid.SampledFrom(kinds).Draw(t, "kind"), rapid.SampledFrom([]float64{0.02, 0.1, 0.4}).Draw(t, "arg"), rapid.SampledFrom([]int{0, 2, 3, 5, 8, 9, 10, 11, 16, 30}).Draw(t, "num")})
	}
	c.First, c.Twice = rapid.Bool().Draw(t, "first"), rapid.IntRange(0, 2).Draw(t, "twice") == 0
	return c
}

// shared is the data all jobs read.
type shared struct {
	X  *mat.Dense
	Y  []float64
	ND *featselect.NormalizedData
	DS *featselect.Dataset
	C  featselect.CovMat
	L  featselect.LassoCorrection
}

func (c *parCase) shared() *shared {
	s := &shared{X: c.Dense(), Y: c.Target(), C: &featselect.Empirical{}, L: &featselect.PureLasso{}}
	s.ND = featselect.NewNormalizedData(c.Dense(), c.Target())
	var names []string
	for i := 0; i <= c.P; i++ {
		names = append(names, fmt.Sprintf("n%d", i))
	}
	s.DS = &featselect.Dataset{X: c.Dense(), Y: c.Target(), Names: names, TargetCol: c.P}
	return s
}

func flat(p int, nodes []*featselect.LassoLarsNode) []float64 {
	var r []float64
	for _, n := range nodes {
		r = append(r, n.Lamb)
		r = append(r, featselect.FullCoeffVector(p, n.Selection, n.Coeff)...)
	}
	return r
}

// do runs one job; the result is what has to be the same as alone.
func (j job) do(c *parCase, s *shared) (res []float64, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s panics: %v", j.Kind, r)
		}
	}()
	switch j.Kind {
	case "search":
		h := featselect.NewHighscore(2)
		featselect.SelectModel(s.X, s.Y, h, &featselect.SearchProgress{}, nil)
		return []float64{h.BestScore()}, nil
	case "cdpath":
		num := j.N
		if num == 0 {
			num = 13
		}
		lambs := featselect.Logspace(j.Arg, 1.2, num)
		full := make([]float64, 0)
		nodes := featselect.LassoCrdDescPath(s.ND, s.C, lambs, 50000, 1e-9, s.L)
		if len(nodes) == 0 || len(nodes) > len(lambs) {
			return nil, fmt.Errorf("%d nodes for %d lambdas", len(nodes), len(lambs))
		}
		for k := len(nodes); k < len(lambs); k++ {
			full = append(full, make([]float64, c.P)...)
		}
		for _, n := range nodes {
			full = append(full, featselect.FullCoeffVector(c.P, n.Selection, n.Coeff)...)
		}
		return full, nil
	case "kappa":
		var ts []featselect.CohensKappaTarget
		for k := 0; k < 1+int(j.Arg*100)%20; k++ {
			t := featselect.NewPureLassoCohen()
			t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = s.ND, j.Arg*float64(k+1)/10, s.C, 5000, 1e-5, s.L
			ts = append(ts, t)
		}
		best := featselect.CalculateCohenSequence(2, ts)
		ok := false
		for k := range ts {
			ok = ok || best["lamb"] == j.Arg*float64(k+1)/10
		}
		if !ok {
			return nil, fmt.Errorf("the best parameters %v are not among those tried", best)
		}
		return nil, nil
	case "threshold":
		op := featselect.L2ConsistentCovTO(s.X, 2, 1, 10*j.Arg)
		op.Apply(mat.DenseCopyOf(s.X))
		return nil, nil
	case "lars":
		return flat(c.P, featselect.LassoLars(s.ND, 0.02+j.Arg, &featselect.MorsePenroseCD{})), nil
	case "cd":
		return featselect.LassoCrdDesc(s.ND, j.Arg, s.C, make([]float64, c.P), 50000, 1e-9, s.L), nil
	case "anneal":
		r := featselect.SelectModelSA(s.X, s.Y, 1, featselect.Aicc)
		if len(r.Selected) == 0 {
			return nil, fmt.Errorf("annealing selects nothing")
		}
		return nil, nil
	case "brute":
		return featselect.BruteForceSelect(s.X, s.Y).Scores(), nil
	case "omp":
		return featselect.Omp(s.X, s.Y, 1e-3).Coeff, nil
	case "nested":
		var r []float64
		for _, p := range featselect.NestedLasso(s.DS, 0.02+j.Arg, 0.8, &featselect.MorsePenroseCD{}).Paths[:1] {
			r = append(r, flat(c.P, p.Nodes)...)
		}
		return r, nil
	case "fit":
		b := featselect.Fit(s.X, s.Y)
		return append(append(b, featselect.Predict(s.X, b)...), featselect.Rss(s.X, b, s.Y)), nil
	case "bounds":
		m := make([]bool, c.P)
		m[1] = true
		l, u := featselect.BoundsAICC(m, 2, s.X, s.Y)
		return []float64{l, u}, nil
	case "dataset":
		js, err := json.Marshal(s.DS)
		if err != nil {
			return nil, err
		}
		var d featselect.Dataset
		if err := json.Unmarshal(js, &d); err != nil {
			return nil, err
		}
		if !d.IsEqual(s.DS) || !s.DS.Copy().IsEqual(s.DS) {
			return nil, fmt.Errorf("the dataset is not the same after a round trip")
		}
		return d.Y, nil
	case "powers":
		_, nc := s.X.Dims()
		k := 1 + j.N%3
		if k > nc {
			k = nc
		}
		m := featselect.NewLazyMatrix(mat.DenseCopyOf(s.X.Slice(0, c.N, 0, k)), 1+int(j.Arg*10)%4)
		m.AddPowerSequence([]int{k - 1}, 2)
		full := m.FullMatrix()
		res := append([]float64{}, full.RawMatrix().Data...)
		for _, row := range featselect.IterProduct([]int{0, 1, 2 + int(math.Abs(c.Y[0])*1000)}, k) {
			for _, v := range row {
				res = append(res, float64(v))
			}
		}
		return res, nil
	case "csv":
		var b bytes.Buffer
		s.DS.SaveHandle(&b)
		d := featselect.ParseCSV(&b, c.P)
		sub := d.GetSubset([]int{c.P - 1, 0})
		if d.FeatNoByName("n1") != 1 || sub.GetFeatName(1) != "n0" {
			return nil, fmt.Errorf("names %q and %q", d.Names, sub.Names)
		}
		return append(append([]float64{}, d.Y...), sub.X.RawMatrix().Data...), nil
	case "algebra":
		est := &featselect.MorsePenroseCD{}
		est.SetX(s.ND.X)
		est.SetActiveSet([]int{1, c.P - 1}[:1+j.N%2])
		res := append([]float64{}, est.C(mat.NewVecDense(len(s.Y), append([]float64{}, s.Y...))).RawVector().Data...)
		den := featselect.DenumMatrixGcv(s.X)
		res = append(res, featselect.Gcv(den, s.Y, featselect.Predict(s.X, featselect.Fit(s.X, s.Y))))
		res = append(res, featselect.CovarianceMatrix(s.X).RawMatrix().Data...)
		e, _ := s.C.Get(s.X).(*mat.Dense)
		if e != nil {
			res = append(res, e.RawMatrix().Data...)
		}
		id := (&featselect.Identity{}).Get(s.X)
		res = append(res, id.At(0, 0), id.At(0, c.P-1))
		a, b := featselect.RandomRowSplit(s.X, c.N/2)
		view := featselect.NewIndexedColView(a, []int{0})
		if view.At(0, 0) != 1 || b.At(0, 0) != 1 {
			return nil, fmt.Errorf("the constant column is not constant after a split")
		}
		return res, nil
	case "helpers":
		w := featselect.WeightsFromAIC(append([]float64{}, s.Y...))
		res := append(w, featselect.Logspace(j.Arg, 2, 3+j.N)...)
		for _, v := range featselect.Argsort(s.Y) {
			res = append(res, float64(v))
		}
		for _, v := range featselect.UnionInt([]int{0, 2}, []int{1, 2}) {
			res = append(res, float64(v))
		}
		res = append(res, featselect.CohenKappa([]int{0, 1}, []int{1}, c.P), featselect.Mean(s.Y), featselect.Std(s.Y), featselect.NewLog2Pruned(1, j.N))
		r := featselect.RearrangeDense(s.X, []int{c.P - 1, 0})
		featselect.NormalizeRows(r)
		res = append(res, r.RawMatrix().Data...)
		sc := featselect.NewSAScore(2)
		for k := 0; k < 4; k++ {
			m := make([]bool, c.P)
			m[k%c.P] = true
			it := featselect.NewSAItem(m)
			it.Score = float64(k)
			sc.Insert(it)
		}
		n := featselect.NewNode(0, make([]bool, c.P)).GetChildNode(true)
		js, err := json.Marshal(n)
		var q featselect.Node
		if err == nil {
			err = json.Unmarshal(js, &q)
		}
		if err != nil || !q.Model[0] {
			return nil, fmt.Errorf("node %s: %v", js, err)
		}
		md := featselect.NewModel(70)
		md.Set(65)
		md.Flip(3)
		for k, v := range md.ToBools() {
			if v {
				res = append(res, float64(k))
			}
		}
		return append(res, sc.BestItem.Score, sc.WorstItem.Score), nil
	case "criteria":
		path := featselect.LassoLarsPath{Dset: s.DS, LassoLarsNodes: []*featselect.LassoLarsNode{
			featselect.NewLassoLarsNode([]float64{1}, 2, []int{1}), featselect.NewLassoLarsNode([]float64{j.Arg, 2}, 1, []int{0, c.P - 1})}}
		a, b := path.GetCriteria(featselect.Aicc), path.GetCriteria(featselect.Bic)
		featselect.PrintHighscore(&path, a, b, 2)
		res := append(append([]float64{}, a...), b...)
		for _, xy := range path.ExtractPath(c.P - 1) {
			res = append(res, xy.X, xy.Y)
		}
		for _, v := range path.PickMostRelevantFeatures(2) {
			res = append(res, float64(v))
		}
		js, err := json.Marshal(path)
		if err != nil {
			return nil, err
		}
		back := featselect.LassoLarsPathFromBytes(js)
		lo, hi := back.MaxMinFeatNo()
		return append(res, float64(lo), float64(hi), back.LassoLarsNodes[1].Coeff[0]), nil
	}
	return nil, fmt.Errorf("unknown job")
}

func runPar(c parCase, o *kit.Obs) error {
	A := c.Cols()
	if kit.StdRef(c.Y) < 1e-3 || len(c.Jobs) == 0 {
		return kit.ErrSkip
	}
	for _, a := range A[1:] {
		if kit.StdRef(a) < 1e-3 {
			return kit.ErrSkip
		}
		// every half of the rows has to have different values
		s := append([]float64{}, a...)
		sort.Float64s(s)
		for i := range s[:len(s)-1] {
			if s[i+1]-s[i] < 1e-9 {
				return kit.ErrSkip
			}
		}
	}
	s := append([]float64{}, c.Y...)
	sort.Float64s(s)
	distinct := 1
	run, longest := 1, 1
	for i := range s[:len(s)-1] {
		if s[i+1] != s[i] {
			distinct++
			run = 1
		} else {
			run++
		}
		if run > longest {
			longest = run
		}
	}
	if distinct < 3 || longest >= c.N/2 {
		return kit.ErrSkip // half of the rows can have a constant target
	}
	if _, shaky := kit.AllModels(&c.Prob); shaky {
		return kit.ErrSkip
	}
	for m := 1; m < 1<<uint(c.P-1); m++ {
		sub := kit.Cols{A[0]}
		for j := 1; j < c.P; j++ {
			if m>>uint(j-1)&1 == 1 {
				sub = append(sub, A[j])
			}
		}
		B, z, _ := kit.NormRef(sub, c.Y)
		if _, gap, smin, ok := kit.RefPath(B, z, 0.01, 0.005); !ok || gap < 1e-4 || smin < 0.2 {
			return kit.ErrSkip
		}
	}
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	alone := make([][]float64, len(c.Jobs))
	single := func() error {
		for k, j := range c.Jobs {
			r, err := j.do(&c, c.shared())
			if err != nil {
				return fmt.Errorf("alone: %w", err)
			}
			alone[k] = r
			if err := settle(j.Kind); err != nil {
				return err
			}
		}
		return nil
	}
	if !c.First {
		if err := single(); err != nil {
			return err
		}
	}
	sh := c.shared()
	copies := 1
	if c.Twice {
		copies = 2
	}
	got := make([][]float64, copies*len(c.Jobs))
	errs := make([]error, copies*len(c.Jobs))
	var wg sync.WaitGroup
	for k := range got {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			got[k], errs[k] = c.Jobs[k/copies].do(&c, sh)
		}(k)
	}
	wg.Wait()
	if c.First {
		if err := settle("all jobs"); err != nil {
			return err
		}
		if err := single(); err != nil {
			return err
		}
	}
	for k := range got {
		j, alone := c.Jobs[k/copies], alone[k/copies]
		if errs[k] != nil {
			return fmt.Errorf("job %d (%s) together with %v: %w", k, j.Kind, c.Jobs, errs[k])
		}
		if len(got[k]) != len(alone) {
			return fmt.Errorf("job %d (%s) together with %v gives %v, alone %v", k, j.Kind, c.Jobs, got[k], alone)
		}
		for i := range got[k] {
			if !kit.Close(got[k][i], alone[i], 1e-5) {
				return fmt.Errorf("job %d (%s) together with %v gives %v, alone %v", k, j.Kind, c.Jobs, got[k], alone)
			}
		}
	}
	if err := settle("all jobs"); err != nil {
		return err
	}
	if !c.SameX(sh.X) || !kit.SameSlice(sh.Y, c.Y) || !c.SameX(sh.DS.X) || !kit.SameSlice(sh.DS.Y, c.Y) {
		return fmt.Errorf("the jobs %v changed the shared data", c.Jobs)
	}
	for _, j := range c.Jobs {
		o.Label("%s", j.Kind)
	}
	if len(got) > 1 {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C30",
		Rule:        "All sub-checks run under the race detector. search: generated branch-and-bound problems observed by 1-3 goroutines which check order, capacity and monotonicity of what they read; non-trivial: at least five observations per goroutine. list: 1-4 writers and 1-3 readers of one list and progress; non-trivial: two writers. jobs: 1-5 calls of 19 kinds at the same time on the same data, each by one or two goroutines, before or after they are made alone, results compared with those alone; non-trivial: two calls at the same time. After each case no goroutine may be inside the library.",
		Assumptions: []string{"schedules are those the Go scheduler produces with 2-8 processors and yields injected at matrix accesses", "LARS in general position"},
		Subs: []kit.Sub{kit.NewSub("search", 900, 15000, genWatch, runWatch),
			kit.NewSub("list", 1500, 20000, genList, runList), kit.NewSub("jobs", 1000, 15000, genPar, runPar)}})
}
