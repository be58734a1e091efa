// C29: library calls leave the caller's data unchanged.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type op struct {
	F int `json:"f"`
	A int `json:"a"`
	B int `json:"b"`
	// W: the caller overwrites the result afterwards
	W bool `json:"w,omitempty"`
}

type seqCase struct {
	kit.Prob
	Seed uint64 `json:"seed"`
	Ops  []op   `json:"ops"`
}

func (c seqCase) Smaller() []seqCase {
	var out []seqCase
	for i := range c.Ops {
		d := c
		d.Ops = append(append([]op{}, c.Ops[:i]...), c.Ops[i+1:]...)
		out = append(out, d)
	}
	for _, q := range c.SmallerProbs(2*c.P + 4) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	return out
}

// pool is what the caller owns.
type pool struct {
	p       kit.Prob
	X       *mat.Dense
	Y       []float64
	DS      *featselect.Dataset
	DS2     *featselect.Dataset
	ND      *featselect.NormalizedData
	NDY     []float64
	Path    *featselect.LassoLarsPath
	Models  [][]bool
	Lambs   []float64
	X0      [][]float64
	Aic     []float64
	W       []float64
	Sparse  []featselect.SparseCoeff
	Sets    [][]int
	Coeff   []float64
	HS      *featselect.Highscore
	NodeA   *featselect.Node
	NodeB   *featselect.Node
	Params  *featselect.SelectModelOptParams
	Model   *featselect.Model
	Pairs   *featselect.SAScore
	Powers  map[int]int
	Nested  *featselect.Dataset
	Item    *featselect.SAItem
	OneCol  *mat.VecDense
	Signs   *mat.VecDense
	Active  []int
	ParCopy []bool
	// shared instances of the interchangeable parts
	Emp   *featselect.Empirical
	Ident *featselect.Identity
	CD    *featselect.MorsePenroseCD
	Pure  *featselect.PureLasso
	ND0   *featselect.NormalizedData // no column of ones
	ND0Y  []float64
	// the caller's memory behind its slices
	guards []func() string
}

// roomy gives a slice spare capacity with known content, so that writing behind
// its end is seen.
func roomy[T any](q *pool, s []T, fill T) []T {
	b := make([]T, len(s), len(s)+6)
	copy(b, s)
	for i := len(s); i < cap(b); i++ {
		b[:cap(b)][i] = fill
	}
	full := b[:cap(b)]
	q.guards = append(q.guards, func() string { return fmt.Sprint(full[len(s):]) })
	return b
}

// spare describes the memory behind the slices.
func (q *pool) spare() string {
	r := ""
	for _, g := range q.guards {
		r += g()
	}
	return r
}

func (c *seqCase) pool() *pool {
	r := kit.NewRng(c.Seed)
	q := &pool{p: c.Prob, X: c.Dense(), Y: c.Target()}
	names := make([]string, c.P+1)
	for i := range names {
		names[i] = fmt.Sprintf("n%d", (i*5+2)%11)
	}
	q.DS = &featselect.Dataset{X: c.Dense(), Y: c.Target(), Names: names, TargetCol: r.I(c.P + 1)}
	q.DS2 = q.DS.Copy()
	q.Nested = q.DS.Copy()
	q.NDY = roomy(q, c.Target(), -77)
	q.ND = featselect.NewNormalizedData(c.Dense(), q.NDY)
	q.Lambs = featselect.Logspace(1e-3, 1.5, 7)
	q.X0 = [][]float64{make([]float64, c.P)}
	q.X0 = append(q.X0, featselect.LassoCrdDesc(q.ND, 0.05, &featselect.Empirical{}, make([]float64, c.P), 20000, 1e-9, &featselect.PureLasso{}))
	x0 := make([]float64, c.P)
	for i := range x0 {
		if i > 0 && r.I(2) == 0 {
			x0[i] = r.N()
		}
	}
	q.X0 = append(q.X0, x0)
	for k := 0; k < 5; k++ {
		m := make([]bool, c.P)
		for i := range m {
			m[i] = r.I(2) == 0
		}
		m[r.I(c.P)] = true
		q.Models = append(q.Models, m)
		var sel []int
		var co []float64
		for i := range m {
			if m[i] {
				sel = append(sel, i)
				co = append(co, r.N())
			}
		}
		for i, k := range r.Perm(len(sel)) {
			sel[i], sel[k] = sel[k], sel[i]
		}
		q.Sparse = append(q.Sparse, featselect.SparseCoeff{Coeff: co, Selection: sel})
		q.Aic = append(q.Aic, 5*r.N())
		q.W = append(q.W, r.F())
		q.Sets = append(q.Sets, append([]int{}, sel...))
	}
	q.Coeff = make([]float64, c.P)
	for i := range q.Coeff {
		q.Coeff[i] = r.N()
	}
	q.HS = featselect.NewHighscore(4)
	q.Pairs = featselect.NewSAScore(3)
	for k := 0; k < 6; k++ {
		n := featselect.NewNode(r.I(c.P), q.Models[r.I(5)])
		n.Score = r.N()
		for i := range n.Coeff {
			n.Coeff[i] = r.N()
		}
		q.HS.Insert(n)
		it := featselect.NewSAItem(q.Models[r.I(5)])
		it.Score = r.N()
		q.Pairs.Insert(it)
	}
	q.NodeA = featselect.NewNode(r.I(c.P), q.Models[0])
	q.NodeB = featselect.NewNode(r.I(c.P), q.Models[1])
	q.Params = featselect.NewSelectModelOptParams()
	if r.I(2) == 0 {
		q.ParCopy = append([]bool{}, q.Models[2]...)
		q.Params.RootModel = q.ParCopy
	}
	q.Model = featselect.NewModel(c.P)
	q.Model.Set(r.I(c.P))
	q.Powers = map[int]int{0: 1, c.P - 1: 2}
	q.Item = featselect.NewSAItem(q.Models[3])
	q.OneCol = mat.NewVecDense(c.N, c.Target())
	// a path in original units
	z := c.Target()
	nd := featselect.NewNormalizedData(c.Dense(), z)
	nodes := featselect.LassoLars(nd, 1e-2, &featselect.MorsePenroseCD{})
	featselect.Path2Unnormalized(nd, nodes)
	q.Path = &featselect.LassoLarsPath{Dset: q.DS2, LassoLarsNodes: nodes}
	q.Path.Aicc = q.Path.GetCriteria(featselect.Aicc)
	q.Path.Bic = q.Path.GetCriteria(featselect.Bic)
	for i := 1; i < c.P; i++ {
		if i == 1 || r.I(2) == 0 {
			q.Active = append(q.Active, i)
		}
	}
	q.Signs = mat.NewVecDense(len(q.Active), nil)
	for i := range q.Active {
		q.Signs.SetVec(i, float64(1-2*r.I(2)))
	}
	q.Emp, q.Ident, q.CD, q.Pure = &featselect.Empirical{}, &featselect.Identity{}, &featselect.MorsePenroseCD{}, &featselect.PureLasso{}
	raw := mat.NewDense(c.N, c.P-1, nil)
	for i := 0; i < c.N; i++ {
		for j := 1; j < c.P; j++ {
			raw.Set(i, j-1, c.At(i, j))
		}
	}
	q.ND0Y = roomy(q, c.Target(), -77)
	q.ND0 = featselect.NewNormalizedData(raw, q.ND0Y)
	q.Y, q.DS.Y, q.DS2.Y, q.Nested.Y = roomy(q, q.Y, -77), roomy(q, q.DS.Y, -77), roomy(q, q.DS2.Y, -77), roomy(q, q.Nested.Y, -77)
	q.Lambs, q.Aic, q.W, q.Coeff = roomy(q, q.Lambs, 55), roomy(q, q.Aic, 55), roomy(q, q.W, 55), roomy(q, q.Coeff, 55)
	q.Active = roomy(q, q.Active, 0)
	q.ParCopy = roomy(q, q.ParCopy, true)
	if q.Params.RootModel != nil {
		q.Params.RootModel = q.ParCopy
	}
	q.DS.Names = roomy(q, q.DS.Names, "spare")
	for k := range q.X0 {
		q.X0[k] = roomy(q, q.X0[k], 33)
	}
	for k := range q.Models {
		q.Models[k] = roomy(q, q.Models[k], true)
		q.Sets[k] = roomy(q, q.Sets[k], 0)
		q.Sparse[k].Coeff = roomy(q, q.Sparse[k].Coeff, 11)
		q.Sparse[k].Selection = roomy(q, q.Sparse[k].Selection, 0)
	}
	q.Sparse = roomy(q, q.Sparse, featselect.SparseCoeff{})
	return q
}

func (q *pool) snap() map[string]string {
	tr := make([]float64, q.p.P)
	for j := 1; j < q.p.P; j++ {
		tr[j] = q.ND.LinearNormalizationTransformation(j, 1.25)
	}
	return map[string]string{
		"X": kit.Deep(q.X), "y": kit.Deep(q.Y), "dataset": kit.Deep(q.DS), "dataset 2": kit.Deep(q.DS2), "dataset 3": kit.Deep(q.Nested),
		"normalised data":          kit.Deep(q.ND, q.NDY, tr, q.ND.LinearTransformationBias([]int{1}, []float64{1})),
		"data without constant":    kit.Deep(q.ND0, q.ND0Y, q.ND0.LinearNormalizationTransformation(0, 1.25)),
		"memory behind its slices": q.spare(),
		"path":                     kit.Deep(q.Path), "models": kit.Deep(q.Models), "lambdas": kit.Deep(q.Lambs), "start vectors": kit.Deep(q.X0),
		"criteria": kit.Deep(q.Aic), "weights": kit.Deep(q.W), "sparse coefficients": kit.Deep(q.Sparse), "sets": kit.Deep(q.Sets),
		"coefficients": kit.Deep(q.Coeff), "highscore": kit.Deep(q.HS), "nodes": kit.Deep(q.NodeA, q.NodeB),
		"parameters": kit.Deep(q.Params, q.ParCopy), "model": kit.Deep(q.Model.ToBools()), "annealing list": kit.Deep(q.Pairs),
		"powers": kit.Deep(q.Powers), "item": kit.Deep(q.Item), "column": kit.Deep(q.OneCol), "active set": kit.Deep(q.Active, q.Signs),
	}
}

// out is the result of a call: exact is compared literally, approx to rounding.
// Results of random calls are only watched, not compared.
type out struct {
	exact  []any
	approx []float64
	random []any
}

func vals(m mat.Matrix) []float64 {
	nr, nc := m.Dims()
	var r []float64
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			r = append(r, m.At(i, j))
		}
	}
	return r
}

var crits = []func(int, int, float64) float64{featselect.Aic, featselect.Aicc, featselect.Bic}

type fn struct {
	name string
	f    func(q *pool, a, b int) out
}

func design(q *pool, a int) mat.Matrix { return featselect.GetDesignMatrix(q.Models[a%5], q.X) }

// cov is shared by the calls: what one call got must not change in the next.
func (q *pool) cov(k int) featselect.CovMat {
	if k%2 == 0 {
		return q.Emp
	}
	return q.Ident
}

var fns = []fn{
	{"Fit", func(q *pool, a, b int) out { return out{exact: []any{featselect.Fit(design(q, a), q.Y)}} }},
	{"FitAll", func(q *pool, a, b int) out { return out{exact: []any{featselect.Fit(q.X, q.Y)}} }},
	{"Rss", func(q *pool, a, b int) out { return out{exact: []any{featselect.Rss(q.X, q.Coeff, q.Y)}} }},
	{"Predict", func(q *pool, a, b int) out {
		k := 1 + a%q.p.P // the first columns, with part of a longer vector
		head := mat.DenseCopyOf(q.X.Slice(0, q.p.N, 0, k))
		return out{exact: []any{featselect.Predict(q.X, q.Coeff), featselect.PredictOne(q.Coeff, q.X0[2]),
			featselect.Predict(head, q.Coeff[:k]), featselect.Rss(head, q.Coeff[:k], q.Y), featselect.Fit(head, q.Y)}}
	}},
	{"Gcv", func(q *pool, a, b int) out {
		d := featselect.DenumMatrixGcv(q.X)
		before := kit.Deep(d)
		pred := featselect.Predict(q.X, q.Coeff)
		predBefore := kit.Deep(pred)
		g := featselect.Gcv(d, q.Y, pred)
		if kit.Deep(d) != before {
			panic("Gcv changed the matrix that was passed")
		}
		if kit.Deep(pred) != predBefore {
			panic("Gcv changed the predictions that were passed")
		}
		return out{exact: []any{d, g}}
	}},
	{"BoundsAIC", func(q *pool, a, b int) out {
		l, u := featselect.BoundsAIC(q.Models[a%5], b%(q.p.P+1), q.X, q.Y)
		return out{exact: []any{l, u}}
	}},
	{"BoundsAICC", func(q *pool, a, b int) out {
		l, u := featselect.BoundsAICC(q.Models[a%5], b%(q.p.P+1), q.X, q.Y)
		return out{exact: []any{l, u}}
	}},
	{"Gcs/Lcs", func(q *pool, a, b int) out {
		m, s := q.Models[a%5], b%(q.p.P+1)
		return out{exact: []any{featselect.Gcs(m, s), featselect.Lcs(m, s), featselect.NumFeatures(m), featselect.SelectedFeatures(m)}}
	}},
	{"BruteForceSelect", func(q *pool, a, b int) out { return out{exact: []any{featselect.BruteForceSelect(q.X, q.Y)}} }},
	{"SelectModel", func(q *pool, a, b int) out {
		h := featselect.NewHighscore(3)
		var sp featselect.SearchProgress
		featselect.SelectModel(q.X, q.Y, h, &sp, q.Params)
		return out{approx: []float64{h.BestScore()}, random: []any{h}}
	}},
	{"SelectModelSA", func(q *pool, a, b int) out {
		return out{random: []any{featselect.SelectModelSA(q.X, q.Y, 1, crits[b%3])}}
	}},
	{"Omp", func(q *pool, a, b int) out { return out{exact: []any{featselect.Omp(q.X, q.Y, 1e-3)}} }},
	{"LassoLars", func(q *pool, a, b int) out {
		return out{exact: []any{featselect.LassoLars(q.ND, []float64{0.05, 0.5}[a%2], q.CD)}}
	}},
	{"LassoCrdDesc", func(q *pool, a, b int) out {
		var corr featselect.LassoCorrection = &featselect.PureLasso{}
		if b%3 == 1 {
			corr = &featselect.ElasticNet{Lamb: 0.3}
		} else if b%3 == 2 {
			corr = featselect.NewCLasso(q.p.P, 0.01)
		}
		l, iters := []float64{0.01, 0.05, 0.4}[a%3], []int{20000, 20000, 1, 2}[(a/3)%4]
		short := &featselect.PureLasso{}
		return out{exact: []any{featselect.LassoCrdDesc(q.ND, l, q.cov(b), q.X0[(a/3)%3], iters, 1e-9, corr),
			featselect.LassoCrdDesc(q.ND0, l, q.cov(b), q.X0[(a/3)%3][1:q.p.P:q.p.P], iters, 1e-9, short)}}
	}},
	{"LassoCrdDescPath", func(q *pool, a, b int) out {
		return out{random: []any{featselect.LassoCrdDescPath(q.ND, q.cov(b), q.Lambs, 20000, 1e-6, q.Pure)}}
	}},
	{"NestedLasso", func(q *pool, a, b int) out {
		r := featselect.NestedLasso(q.Nested, 0.05, []float64{0.5, 0.8}[a%2], q.CD)
		return out{exact: []any{r.Paths}}
	}},
	{"Cohen", func(q *pool, a, b int) out {
		t := featselect.NewPureLassoCohen()
		t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = q.ND, 0.1, q.cov(b), 20000, 1e-6, &featselect.PureLasso{}
		return out{random: []any{featselect.GetCohensKappa(2, t)}}
	}},
	{"CovMat", func(q *pool, a, b int) out { return out{exact: []any{q.cov(a).Get(q.X), q.cov(a).Get(q.ND.X)}} }},
	{"CovarianceMatrix", func(q *pool, a, b int) out { return out{exact: []any{featselect.CovarianceMatrix(q.X)}} }},
	{"RandomRowSplit", func(q *pool, a, b int) out {
		x, y := featselect.RandomRowSplit(q.X, 1+a%(q.p.N-1))
		return out{random: []any{x, y}}
	}},
	{"L2ConsistentCovTO", func(q *pool, a, b int) out {
		t := featselect.L2ConsistentCovTO(q.ND.X, 2, 1.0, 3.0)
		m := mat.DenseCopyOf(q.X)
		t.Apply(m)
		return out{random: []any{m}}
	}},
	{"WeightsFromAIC", func(q *pool, a, b int) out { return out{exact: []any{featselect.WeightsFromAIC(q.Aic)}} }},
	{"WeightedAveragedCoeff", func(q *pool, a, b int) out {
		return out{exact: []any{featselect.WeightedAveragedCoeff(q.p.P, q.W, q.Sparse)}}
	}},
	{"FullCoeffVector", func(q *pool, a, b int) out {
		s := q.Sparse[a%5]
		return out{exact: []any{featselect.FullCoeffVector(q.p.P, s.Selection, s.Coeff), featselect.Selected2Model(s.Selection, q.p.P)}}
	}},
	{"slices", func(q *pool, a, b int) out {
		s := q.Sets[a%5]
		return out{exact: []any{featselect.Mean(q.Y), featselect.Std(q.Y), featselect.MaxInt(s), featselect.MinInt(s), featselect.MinFloat(q.Aic),
			featselect.Argsort(q.Aic), featselect.Argmin(q.Aic), featselect.Argmax(q.Aic), featselect.ExistInt(s, b), featselect.EqualInt(s, q.Sets[b%5]),
			featselect.All(s, b), featselect.Sum(s), featselect.CohenKappa(s, q.Sets[b%5], q.p.P), featselect.IterProduct(s, 2)}}
	}},
	{"UnionInt", func(q *pool, a, b int) out {
		return out{exact: []any{featselect.UnionInt(append([]int{}, q.Sets[a%5]...), q.Sets[b%5])}}
	}},
	{"RearrangeDense", func(q *pool, a, b int) out {
		m := mat.DenseCopyOf(q.X)
		return out{exact: []any{featselect.RearrangeDense(m, q.Sets[a%5])}}
	}},
	{"design", func(q *pool, a, b int) out { return out{exact: []any{design(q, a)}} }},
	{"views", func(q *pool, a, b int) out {
		v := featselect.NewIndexedColView(q.X, q.Active)
		w := featselect.NewIndexedColVecView(q.OneCol, q.Active)
		return out{exact: []any{vals(&v), vals(v.T()), vals(w), vals(featselect.NewSliceVec(q.Y))}}
	}},
	{"Dataset", func(q *pool, a, b int) out {
		var s bytes.Buffer
		q.DS.SaveHandle(&s)
		js, err := json.Marshal(q.DS)
		if err != nil {
			panic(err)
		}
		var d featselect.Dataset
		if err := json.Unmarshal(js, &d); err != nil {
			panic(err)
		}
		return out{exact: []any{s.String(), string(js), q.DS.Copy(), q.DS.IsEqual(q.DS2), q.DS.GetFeatName(a % q.p.P), q.DS.FeatNoByName(q.DS.GetFeatName(b % q.p.P)), &d}}
	}},
	{"GetSubset", func(q *pool, a, b int) out { return out{exact: []any{q.DS.GetSubset(q.Sets[a%5])}} }},
	{"NewNormalizedData", func(q *pool, a, b int) out {
		y := append([]float64{}, q.Y...)
		x := mat.DenseCopyOf(q.X)
		n := featselect.NewNormalizedData(x, y)
		return out{exact: []any{n, y}}
	}},
	{"Highscore", func(q *pool, a, b int) out {
		js, err := json.Marshal(q.HS)
		if err != nil {
			panic(err)
		}
		var h featselect.Highscore
		if err := json.Unmarshal(js, &h); err != nil {
			panic(err)
		}
		return out{exact: []any{string(js), q.HS.Len(), q.HS.BestScore(), q.HS.Scores(), q.HS.Equal(&h), &h, q.Pairs.Exists(q.Item)}}
	}},
	{"Node", func(q *pool, a, b int) out {
		js, err := json.Marshal(q.NodeA)
		if err != nil {
			panic(err)
		}
		n := featselect.NewNode(b%q.p.P, q.Models[a%5])
		n.Model[0] = !n.Model[0]
		it := featselect.NewSAItem(q.Models[a%5])
		return out{exact: []any{string(js), q.NodeA.GetChildNode(a%2 == 0), featselect.NodesEqual(q.NodeA, q.NodeB), q.NodeA.ToSparseCoeff(), q.NodeA.EstimateMemory(), n, it}}
	}},
	{"SearchSteps", func(q *pool, a, b int) out {
		n := featselect.NewNode(b%q.p.P, q.Models[a%5])
		c := featselect.CreateChild(n, a%2 == 0, q.X, q.Y, 0, q.HS)
		return out{exact: []any{c}}
	}},
	{"Path", func(q *pool, a, b int) out {
		mx, mn := q.Path.MaxMinFeatNo()
		rng := &featselect.AxisRange{Min: -1, Max: 2}
		before := kit.Deep(rng)
		q.Path.PlotPath(rng)
		if kit.Deep(rng) != before {
			panic("PlotPath changed the range")
		}
		q.Path.PlotEntranceTimes()
		q.Path.PlotQualityScores()
		q.Path.PlotDeviations()
		featselect.PrintHighscore(q.Path, q.Path.Aicc, q.Path.Bic, 3)
		return out{exact: []any{mx, mn, q.Path.PickMostRelevantFeatures(a % (q.p.P + 1)), q.Path.ExtractPath(b % q.p.P), q.Path.GetCriteria(crits[a%3])}}
	}},
	{"PathJSON", func(q *pool, a, b int) out {
		js, err := json.Marshal(q.Path)
		if err != nil {
			panic(err)
		}
		return out{exact: []any{string(js), featselect.LassoLarsPathFromBytes(js), featselect.LassoNodesSlice2SparsCoeff(q.Path.LassoLarsNodes)}}
	}},
	{"NewLassoLarsNode", func(q *pool, a, b int) out {
		s := q.Sparse[a%5]
		n := featselect.NewLassoLarsNode(s.Coeff, 0.5, s.Selection)
		return out{exact: []any{n}}
	}},
	{"Lazy", func(q *pool, a, b int) out {
		l := featselect.NewLazyMatrix(q.X, 2)
		l.AddPower(q.Powers)
		var r []float64
		for i := 0; i < l.NumCols(); i++ {
			r = append(r, l.GetCol(i)...)
		}
		full := l.FullMatrix()
		return out{approx: append(r, vals(full)...), random: []any{full}}
	}},
	{"Soft/KKT", func(q *pool, a, b int) out {
		c := (&featselect.Empirical{}).Get(q.ND.X)
		before := kit.Deep(c)
		m := featselect.MulSlice(c, q.X0[2])
		xy := mat.NewVecDense(q.p.P, featselect.MulSlice(q.ND.X.T(), q.NDY))
		k := featselect.UnsatisfiedKKTConditions(xy, m, q.X0[2], 0.1, &featselect.PureLasso{})
		if kit.Deep(c) != before {
			panic("the covariance matrix was changed")
		}
		return out{exact: []any{m, k, featselect.SoftThreshold(q.Y[0], 0.3)}}
	}},
	{"CD", func(q *pool, a, b int) out {
		var e featselect.MorsePenroseCD
		e.SetX(q.ND.X)
		e.SetActiveSet(q.Active)
		return out{exact: []any{e.C(mat.NewVecDense(len(q.NDY), q.NDY)), e.D(q.Signs)}}
	}},
	{"SVD", func(q *pool, a, b int) out {
		var s mat.SVD
		if !s.Factorize(q.X, mat.SVDThin) {
			panic("no SVD")
		}
		x, y := featselect.PseudoInverse(&s, 1e-8), featselect.PseudoInverseXTX(&s, 1e-8)
		x2, y2 := featselect.PseudoInverse(&s, 1e-8), featselect.PseudoInverseXTX(&s, 1e-8)
		if kit.Deep(x, y) != kit.Deep(x2, y2) {
			panic("a second pseudo-inverse of the same factorisation differs")
		}
		return out{exact: []any{x, y}}
	}},
	{"Abs", func(q *pool, a, b int) out {
		return out{exact: []any{featselect.Abs(append([]float64{}, q.Y...)), featselect.Logspace(0.01, 2, 1+a%7), featselect.NewLog2Pruned(float64(a%9), b%9)}}
	}},
}

func (q *pool) perturb(a, b int) {
	i, j := a%q.p.N, 1+b%(q.p.P-1)
	v := q.X.At(i, j) + 0.5
	q.X.Set(i, j, v)
	q.DS.X.Set(i, j, v)
	q.Nested.X.Set(i, j, v)
	q.Y[a%q.p.N] -= 0.75
	q.Nested.Y[b%q.p.N] += 0.25
	q.Models[a%5][0] = !q.Models[a%5][0]
	if featselect.NumFeatures(q.Models[a%5]) == 0 {
		q.Models[a%5][0] = true
	}
	q.Aic[a%5] += 1
	q.X0[2][j] += 0.5
}

func gen(t *rapid.T) seqCase {
	c := seqCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 12, MaxN: 20, MinP: 3, MaxP: 5, Shape: 1, Bias: 1, MinNoise: 0.3, Kinds: []string{"gauss"}})}
	for i := 0; i < c.N; i++ {
		c.X[i*c.P] = 1
	}
	c.Seed = rapid.Uint64().Draw(t, "seed")
	n := rapid.IntRange(1, 14).Draw(t, "calls")
	for k := 0; k < n; k++ {
		o := op{rapid.SampledFrom(opIdx).Draw(t, "f"), rapid.IntRange(0, 30).Draw(t, "a"), rapid.IntRange(0, 30).Draw(t, "b"), rapid.IntRange(0, 2).Draw(t, "overwrite") == 0}
		c.Ops = append(c.Ops, o)
		if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			o.W = !o.W
			c.Ops = append(c.Ops, o)
		}
	}
	if rapid.Bool().Draw(t, "repeat") && len(c.Ops) > 0 {
		c.Ops = append(c.Ops, c.Ops[0])
	}
	return c
}

// shares lists the calls with a result that refers to what was passed by design.
var shares = map[string]bool{"Node": true, "PathJSON": true}

// seen is the content of a result.
type seen struct {
	exact  string
	approx []float64
}

func view(r out) seen { return seen{kit.Deep(r.exact...), append([]float64{}, r.approx...)} }

func differ(a, b seen) error {
	if a.exact != b.exact {
		return fmt.Errorf("%.300s and %.300s", a.exact, b.exact)
	}
	if len(a.approx) != len(b.approx) {
		return fmt.Errorf("%v and %v", a.approx, b.approx)
	}
	for i := range a.approx {
		if !kit.Close(a.approx[i], b.approx[i], 1e-9) {
			return fmt.Errorf("value %d: %v and %v", i, a.approx[i], b.approx[i])
		}
	}
	return nil
}

func same(a, b map[string]string) (string, bool) {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if a[k] != b[k] {
			return fmt.Sprintf("%s: %.400s -> %.400s", k, a[k], b[k]), false
		}
	}
	return "", true
}

func run(c seqCase, o *kit.Obs) error {
	A := c.Cols()
	if kit.StdRef(c.Y) < 1e-3 {
		return kit.ErrSkip
	}
	for _, a := range A[1:] {
		if kit.StdRef(a) < 1e-3 {
			return kit.ErrSkip
		}
	}
	// LARS needs general position along the path of the original data
	B, z, _ := kit.NormRef(A, c.Y)
	if _, gap, smin, ok := kit.RefPath(B, z, 5e-3, 4e-3); !ok || gap < 1e-4 || smin < 0.2 {
		return kit.ErrSkip
	}
	q := c.pool()
	lars := true // NestedLasso runs on perturbed data
	type kept struct {
		name string
		o    out
		was  string
	}
	var held []kept
	type key struct {
		op      op
		version int
	}
	first := map[key]seen{}
	var perturbs []op
	calls := map[string]bool{}
	for k, s := range c.Ops {
		if s.F < 0 {
			q.perturb(s.A, s.B)
			perturbs = append(perturbs, s)
			held = nil
			lars = generalNested(q)
			continue
		}
		f := fns[s.F%len(fns)]
		if f.name == "NestedLasso" && !(lars && generalNested(q)) {
			continue
		}
		calls[f.name] = true
		before := q.snap()
		r := f.f(q, s.A, s.B)
		if msg, ok := same(before, q.snap()); !ok {
			return fmt.Errorf("call %d, %s(%d, %d), changed the caller's %s", k, f.name, s.A, s.B, msg)
		}
		for _, h := range held {
			if now := kit.Deep(h.o.exact, h.o.approx, h.o.random); now != h.was {
				return fmt.Errorf("call %d, %s(%d, %d), changed the result of an earlier %s: %.400s -> %.400s", k, f.name, s.A, s.B, h.name, h.was, now)
			}
		}
		kk := key{op{F: s.F, A: s.A, B: s.B}, len(perturbs)}
		if p, ok := first[kk]; ok {
			if err := differ(p, view(r)); err != nil {
				return fmt.Errorf("repeating %s(%d, %d) gives another result: %v", f.name, s.A, s.B, err)
			}
			o.Label("repeated call")
		} else {
			first[kk] = view(r)
			// the same call on private copies
			iso := c.pool()
			for _, p := range perturbs {
				iso.perturb(p.A, p.B)
			}
			if err := differ(view(r), view(f.f(iso, s.A, s.B))); err != nil {
				return fmt.Errorf("%s(%d, %d) after the other calls and on fresh copies of the data: %v", f.name, s.A, s.B, err)
			}
		}
		if s.W && !shares[f.name] {
			// the result is the caller's own: overwriting it changes nothing else
			kit.Scribble(r.exact...)
			kit.Scribble(r.random...)
			if msg, ok := same(before, q.snap()); !ok {
				return fmt.Errorf("overwriting the result of call %d, %s(%d, %d), changes %s", k, f.name, s.A, s.B, msg)
			}
			for _, h := range held {
				if now := kit.Deep(h.o.exact, h.o.approx, h.o.random); now != h.was {
					return fmt.Errorf("overwriting the result of call %d, %s(%d, %d), changes the result of an earlier %s: %.400s -> %.400s", k, f.name, s.A, s.B, h.name, h.was, now)
				}
			}
			o.Label("result overwritten")
			continue
		}
		held = append(held, kept{f.name, r, kit.Deep(r.exact, r.approx, r.random)})
	}
	if len(calls) >= 4 {
		o.NonTrivial()
	}
	for n := range calls {
		o.Label("%s", n)
	}
	if len(perturbs) > 0 {
		o.Label("data changed between calls")
	}
	return nil
}

// generalNested reports whether every feature subset keeps LARS in general position.
func generalNested(q *pool) bool {
	full := kit.Prob{N: q.p.N, P: q.p.P, Y: append([]float64{}, q.Nested.Y...)}
	full.X = append([]float64{}, vals(q.Nested.X)...)
	A := full.Cols()
	for m := 1; m < 1<<uint(q.p.P-1); m++ {
		sub := kit.Cols{A[0]}
		for j := 1; j < q.p.P; j++ {
			if m>>uint(j-1)&1 == 1 {
				if kit.StdRef(A[j]) < 1e-3 {
					return false
				}
				sub = append(sub, A[j])
			}
		}
		if kit.StdRef(full.Y) < 1e-3 {
			return false
		}
		B, z, _ := kit.NormRef(sub, full.Y)
		if _, gap, smin, ok := kit.RefPath(B, z, 5e-3, 4e-3); !ok || gap < 1e-4 || smin < 0.2 || math.IsNaN(gap) {
			return false
		}
	}
	return true
}

func main() {
	kit.Main(&kit.Check{ID: "C29",
		Rule:        "A case is a data set (12-20 rows, column of ones and 2-4 features) and a random sequence of up to 20 library calls on shared objects, with changes to the data by the caller in between. After every call all objects of the caller and all earlier results are compared with their previous state, and the result with that of the same call on fresh copies. Non-trivial: at least four different functions.",
		Assumptions: []string{"what is compared is what a caller can see: exported fields, elements, matrix entries and the behaviour of the normalisation"},
		Subs:        []kit.Sub{kit.NewSub("calls", 12000, 100000, gen, run)}})
}

// -1 (the caller changes the data) is drawn as often as three functions
var opIdx = func() []int {
	r := []int{-1, -1}
	for i := range fns {
		r = append(r, i)
	}
	return append(r, -1)
}()
