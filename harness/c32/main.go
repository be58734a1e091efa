// C32: inconsistent input is rejected instead of being used.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type badCase struct {
	kit.Prob
	Kind string `json:"kind"`
	D    int    `json:"d"` // how many entries too many or too few
	Seed uint64 `json:"seed"`
}

func (c badCase) Smaller() []badCase {
	var out []badCase
	for _, q := range c.SmallerProbs(5) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	return out
}

// resize makes a vector d entries longer or shorter (never empty).
func resize(v []float64, d int) []float64 {
	w := append([]float64{}, v...)
	for ; d > 0; d-- {
		w = append(w, 1.5)
	}
	if d < 0 {
		if len(w)+d < 1 {
			return w[:1]
		}
		w = w[:len(w)+d]
	}
	return w
}

// rejects runs f, which has to panic.
func rejects(f func()) (ok bool) {
	defer func() { ok = recover() != nil }()
	f()
	return
}

// env is what a call may use.
type env struct {
	c    badCase
	r    *kit.Rng
	X    *mat.Dense
	y    []float64
	m    []bool // a model
	coef []float64
	dir  string
	// what has to stay as it is
	watch []any
}

// A kind returns the valid call and the same call with inconsistent input; a
// bad call has to panic or to return false (the input was not rejected).
type call func() bool

func yes(f func()) call { return func() bool { f(); return true } }

type kindFn func(e *env) (good, bad call)

var kinds = map[string]kindFn{
	"fit": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		return yes(func() { featselect.Fit(e.X, e.y) }), yes(func() { featselect.Fit(e.X, z) })
	},
	"rss": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		return yes(func() { featselect.Rss(e.X, e.coef, e.y) }), yes(func() { featselect.Rss(e.X, e.coef, z) })
	},
	"rss-coeff": func(e *env) (call, call) {
		b := resize(e.coef, e.c.D)
		return yes(func() { featselect.Rss(e.X, e.coef, e.y) }), yes(func() { featselect.Rss(e.X, b, e.y) })
	},
	"predict": func(e *env) (call, call) {
		b := resize(e.coef, e.c.D)
		return yes(func() { featselect.Predict(e.X, e.coef) }), yes(func() { featselect.Predict(e.X, b) })
	},
	"predict-one": func(e *env) (call, call) {
		x := append([]float64{}, e.c.X[:e.c.P]...)
		b := e.coef[:e.c.P-1-e.r.I(e.c.P)]
		if e.r.I(2) == 0 {
			b = resize(e.coef, abs(e.c.D))
		}
		return yes(func() { featselect.PredictOne(x, e.coef) }), yes(func() { featselect.PredictOne(x, b[:len(b):len(b)]) })
	},
	"design-empty": func(e *env) (call, call) {
		return yes(func() { featselect.GetDesignMatrix(e.m, e.X) }), yes(func() { featselect.GetDesignMatrix(make([]bool, e.c.P), e.X) })
	},
	"design-beyond": func(e *env) (call, call) {
		n := append(append([]bool{}, e.m...), make([]bool, abs(e.c.D))...)
		n[len(n)-1] = true
		return yes(func() { featselect.GetDesignMatrix(e.m, e.X) }), yes(func() { featselect.GetDesignMatrix(n, e.X) })
	},
	"node": func(e *env) (call, call) {
		s := kit.IdxOf(e.m)
		b := e.coef[:len(s)]
		return yes(func() { featselect.NewLassoLarsNode(b, 0.5, s) }), yes(func() { featselect.NewLassoLarsNode(resize(b, pos(e.c.D, len(b))), 0.5, s) })
	},
	"average": func(e *env) (call, call) {
		s := kit.IdxOf(e.m)
		var sp []featselect.SparseCoeff
		var w []float64
		for k := 0; k < 1+e.r.I(4); k++ {
			sp = append(sp, featselect.SparseCoeff{Coeff: e.coef[:len(s)], Selection: s})
			w = append(w, 0.25)
		}
		return yes(func() { featselect.WeightedAveragedCoeff(e.c.P, w, sp) }), yes(func() { featselect.WeightedAveragedCoeff(e.c.P, resize(w, pos(e.c.D, len(w))), sp) })
	},
	"sa-sweeps": func(e *env) (call, call) {
		k := -e.r.I(3)
		return yes(func() { featselect.SelectModelSA(e.X, e.y, 1, featselect.Aicc) }), yes(func() { featselect.SelectModelSA(e.X, e.y, k, featselect.Aicc) })
	},
	"sa-cost": func(e *env) (call, call) {
		z := append([]float64{}, e.y...)
		z[e.r.I(len(z))] = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e200, -3e250}[e.r.I(5)]
		k := 1 + e.r.I(4)
		e.watch = append(e.watch, z)
		return yes(func() { featselect.SelectModelSA(e.X, e.y, k, featselect.Aicc) }), yes(func() { featselect.SelectModelSA(e.X, z, k, featselect.Aicc) })
	},
	"nested-keep": func(e *env) (call, call) {
		keep := []float64{1, 1, 1.0000001, 1.5, 2, math.Inf(1)}[e.r.I(6)]
		ds := &featselect.Dataset{X: e.X, Y: e.y, TargetCol: e.c.P}
		for j := 0; j <= e.c.P; j++ {
			ds.Names = append(ds.Names, fmt.Sprintf("f%d", j))
		}
		return nil, yes(func() { featselect.NestedLasso(ds, 0.5, keep, &featselect.MorsePenroseCD{}) })
	},
	"search-narrow": func(e *env) (call, call) {
		k := 1 + e.r.I(2)
		small := mat.DenseCopyOf(e.X.Slice(0, e.c.N, 0, k))
		h, sp := featselect.NewHighscore(4), &featselect.SearchProgress{}
		e.watch = append(e.watch, h)
		var par *featselect.SelectModelOptParams
		switch e.r.I(3) {
		case 0:
			par = featselect.NewSelectModelOptParams()
		case 1:
			par = featselect.NewSelectModelOptParams()
			par.RootModel = make([]bool, k)
			par.RootModel[e.r.I(k)] = e.r.I(2) == 0
		}
		return nil, yes(func() { featselect.SelectModel(small, e.y, h, sp, par) })
	},
	"search-root": func(e *env) (call, call) {
		h, sp := featselect.NewHighscore(4), &featselect.SearchProgress{}
		root := make([]bool, len(resize(e.coef, e.c.D)))
		for i := range root {
			root[i] = e.r.I(2) == 0
		}
		par := featselect.NewSelectModelOptParams()
		par.RootModel = root
		e.watch = append(e.watch, h, root)
		return yes(func() { featselect.SelectModel(e.X, e.y, featselect.NewHighscore(4), sp, nil) }), yes(func() { featselect.SelectModel(e.X, e.y, h, sp, par) })
	},
	"constant": func(e *env) (call, call) {
		x := mat.DenseCopyOf(e.X)
		j := 1 + e.r.I(e.c.P-1)
		v := []float64{0, 1, -2.5, 1e6}[e.r.I(4)]
		ok := mat.DenseCopyOf(e.X)
		bias := e.r.I(2) == 0
		for i := 0; i < e.c.N; i++ {
			x.Set(i, j, v)
			if bias {
				x.Set(i, 0, 1)
				ok.Set(i, 0, 1)
			}
		}
		return yes(func() { featselect.NewNormalizedData(ok, append([]float64{}, e.y...)) }),
			yes(func() { featselect.NewNormalizedData(x, append([]float64{}, e.y...)) })
	},
	"bias-coeff": func(e *env) (call, call) {
		x := mat.DenseCopyOf(e.X)
		for i := 0; i < e.c.N; i++ {
			x.Set(i, 0, 2)
		}
		n := featselect.NewNormalizedData(x, append([]float64{}, e.y...))
		return yes(func() { n.LinearNormalizationTransformation(1+e.r.I(e.c.P-1), 2) }), yes(func() { n.LinearNormalizationTransformation(0, e.coef[0]) })
	},
	"name": func(e *env) (call, call) {
		d := e.dataset()
		k := e.r.I(e.c.P)
		bad := d.GetFeatName(k) + []string{"x", " ", "0"}[e.r.I(3)]
		if e.r.I(3) == 0 {
			bad = []string{"", "N1", "n"}[e.r.I(3)]
		}
		return yes(func() { d.FeatNoByName(d.GetFeatName(k)) }), yes(func() { d.FeatNoByName(bad) })
	},
	"mul": func(e *env) (call, call) {
		return yes(func() { featselect.MulSlice(e.X, e.coef) }), yes(func() { featselect.MulSlice(e.X, resize(e.coef, e.c.D)) })
	},
	"json": func(e *env) (call, call) {
		return e.json(false)
	},
	"json-type": func(e *env) (call, call) {
		return e.json(true)
	},
	"csv-ragged": func(e *env) (call, call) {
		good := e.csv()
		rows := strings.Split(strings.TrimRight(good, "\n"), "\n")
		k := e.r.I(len(rows))
		if e.r.I(3) == 0 && e.c.P > 1 {
			rows[k] = rows[k][strings.Index(rows[k], ",")+1:]
		} else {
			rows[k] += strings.Repeat(",7", abs(e.c.D))
		}
		bad := strings.Join(rows, "\n") + "\n"
		return parse(good, -1), parse(bad, -1)
	},
	"csv-quote": func(e *env) (call, call) {
		good := e.csv()
		k := strings.LastIndex(good, ",")
		return parse(good, 0), parse(good[:k+1]+"\""+good[k+1:], 0)
	},
	"csv-target": func(e *env) (call, call) {
		t := e.c.P + e.r.I(4) + 1
		if e.r.I(2) == 0 {
			t = -e.c.P - 2 - e.r.I(4)
		}
		return parse(e.csv(), e.r.I(2*e.c.P+2)-e.c.P-1), parse(e.csv(), t)
	},
	"csv-empty": func(e *env) (call, call) {
		s := e.csv()
		return parse(s, 0), parse(s[:strings.Index(s, "\n")+1], 0)
	},
	"path-missing": func(e *env) (call, call) {
		return nil, yes(func() { featselect.LassoLarsPathFromJSON(filepath.Join(e.dir, "missing.json")) })
	},
	"gcv": func(e *env) (call, call) {
		den := featselect.DenumMatrixGcv(e.X)
		pred := featselect.Predict(e.X, e.coef)
		data, other := e.y, pred
		switch e.r.I(3) {
		case 0:
			data = resize(e.y, e.c.D)
		case 1:
			other = resize(pred, e.c.D)
		default:
			data, other = resize(e.y, e.c.D), resize(pred, e.c.D)
		}
		return yes(func() { featselect.Gcv(den, e.y, pred) }), yes(func() { featselect.Gcv(den, data, other) })
	},
	"full-coeff": func(e *env) (call, call) {
		s := kit.IdxOf(e.m)
		b := e.coef[:len(s):len(s)]
		e.watch = append(e.watch, s)
		return yes(func() { featselect.FullCoeffVector(e.c.P, s, b) }), func() bool {
			if e.r.I(3) == 0 {
				featselect.FullCoeffVector(s[len(s)-1], s, b)
			} else {
				featselect.FullCoeffVector(e.c.P, s, resize(b, pos(e.c.D, len(b))))
			}
			return true
		}
	},
	"average-coeff": func(e *env) (call, call) {
		s := kit.IdxOf(e.m)
		good := featselect.SparseCoeff{Coeff: e.coef[:len(s):len(s)], Selection: s}
		bad := featselect.SparseCoeff{Coeff: resize(good.Coeff, pos(e.c.D, len(s))), Selection: s}
		sp := []featselect.SparseCoeff{good, bad}
		k := e.r.I(2)
		sp[0], sp[k] = sp[k], sp[0]
		w := []float64{0.75, 0.25}
		e.watch = append(e.watch, sp, w)
		return yes(func() { featselect.WeightedAveragedCoeff(e.c.P, w, []featselect.SparseCoeff{good, good}) }), yes(func() { featselect.WeightedAveragedCoeff(e.c.P, w, sp) })
	},
	"normalise": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		e.watch = append(e.watch, z)
		return yes(func() { featselect.NewNormalizedData(mat.DenseCopyOf(e.X), append([]float64{}, e.y...)) }), yes(func() { featselect.NewNormalizedData(e.X, z) })
	},
	"start": func(e *env) (call, call) {
		d := featselect.NewNormalizedData(mat.DenseCopyOf(e.X), append([]float64{}, e.y...))
		x0 := resize(e.coef, e.c.D)
		e.watch = append(e.watch, x0)
		solve := func(b []float64) {
			featselect.LassoCrdDesc(d, 0.1, &featselect.Empirical{}, b, 10000, 1e-4, &featselect.PureLasso{})
		}
		return yes(func() { solve(e.coef) }), yes(func() { solve(x0) })
	},
	"omp": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		return yes(func() { featselect.Omp(e.X, e.y, 1e-3) }), yes(func() { featselect.Omp(e.X, z, 1e-3) })
	},
	"anneal": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		return nil, yes(func() { featselect.SelectModelSA(e.X, z, 3, featselect.Aicc) })
	},
	"search-target": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		h, sp := featselect.NewHighscore(4), &featselect.SearchProgress{}
		e.watch = append(e.watch, h)
		return yes(func() { featselect.SelectModel(e.X, e.y, featselect.NewHighscore(4), sp, nil) }), yes(func() { featselect.SelectModel(e.X, z, h, sp, nil) })
	},
	"enumerate": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		return yes(func() { featselect.BruteForceSelect(e.X, e.y) }), yes(func() { featselect.BruteForceSelect(e.X, z) })
	},
	"bounds": func(e *env) (call, call) {
		z := resize(e.y, e.c.D)
		k := e.r.I(e.c.P + 1)
		return yes(func() { featselect.BoundsAICC(e.m, k, e.X, e.y) }), yes(func() { featselect.BoundsAICC(e.m, k, e.X, z) })
	},
	"selected": func(e *env) (call, call) {
		s := kit.IdxOf(e.m)
		b := append(append([]int{}, s...), e.outside())
		return yes(func() { featselect.Selected2Model(s, e.c.P) }), yes(func() { featselect.Selected2Model(b, e.c.P) })
	},
	"subset": func(e *env) (call, call) {
		d := e.dataset()
		s := kit.IdxOf(e.m)
		b := append(append([]int{}, s...), e.outside())
		e.watch = append(e.watch, d)
		return yes(func() { d.GetSubset(s) }), yes(func() { d.GetSubset(b) })
	},
	"rearrange": func(e *env) (call, call) {
		s := kit.IdxOf(e.m)
		b := append([]int{}, s...)
		b[e.r.I(len(b))] = e.c.P + e.r.I(3)
		return yes(func() { featselect.RearrangeDense(e.X, s) }), yes(func() { featselect.RearrangeDense(e.X, b) })
	},
	"split": func(e *env) (call, call) {
		k := e.c.N + 1 + e.r.I(3)
		if e.r.I(3) == 0 {
			k = -1 - e.r.I(3)
		}
		return yes(func() { featselect.RandomRowSplit(e.X, 1+e.r.I(e.c.N-1)) }), yes(func() { featselect.RandomRowSplit(e.X, k) })
	},
	"json-content": func(e *env) (call, call) {
		return e.content()
	},
	"path-json": func(e *env) (call, call) {
		d := e.dataset()
		s := kit.IdxOf(e.m)
		p := featselect.LassoLarsPath{Dset: d, Aicc: []float64{1}, Bic: []float64{2},
			LassoLarsNodes: []*featselect.LassoLarsNode{featselect.NewLassoLarsNode(e.coef[:len(s)], 0.5, s)}}
		js, err := json.Marshal(p)
		if err != nil {
			panic(err)
		}
		broken := append([]byte{}, js[:e.r.I(len(js))]...)
		if e.r.I(2) == 0 {
			key := []string{"Dset", "LassoLarsNodes", "Aicc", "Bic"}[e.r.I(4)]
			var m map[string]any
			if err := json.Unmarshal(js, &m); err != nil {
				panic(err)
			}
			m[key] = "text"
			broken, _ = json.Marshal(m)
		}
		read := func(b []byte) call {
			if e.r.I(2) == 0 {
				return yes(func() { featselect.LassoLarsPathFromBytes(b) })
			}
			f := filepath.Join(e.dir, "p"+strconv.Itoa(len(b))+".json")
			if err := os.WriteFile(f, b, 0600); err != nil {
				panic(err)
			}
			return yes(func() { featselect.LassoLarsPathFromJSON(f) })
		}
		return read(js), read(broken)
	},
	"sparse-cov": func(e *env) (call, call) {
		s := featselect.NewSparseThreshold(e.X)
		bad := mat.DenseCopyOf(e.X)
		if e.r.I(2) == 0 {
			i, j := e.r.I(e.c.N), e.r.I(e.c.P)
			bad.Set(i, j, bad.At(i, j)*1.01+[]float64{0.01, -0.02, 5}[e.r.I(3)])
		} else {
			bad = mat.DenseCopyOf(e.X.Slice(0, e.c.N-1, 0, e.c.P))
		}
		return yes(func() { s.Get(mat.DenseCopyOf(e.X)) }), yes(func() { s.Get(bad) })
	},
}

var kindNames = []string{"fit", "rss", "rss-coeff", "predict", "predict-one", "design-empty", "design-beyond", "node", "average",
	"search-narrow", "search-root", "constant", "bias-coeff", "name", "mul", "json", "json-type", "csv-ragged", "csv-quote", "csv-target", "csv-empty", "path-missing",
	"gcv", "full-coeff", "average-coeff", "normalise", "start", "omp", "anneal", "search-target", "enumerate", "bounds", "selected", "subset",
	"rearrange", "split", "json-content", "json-content", "path-json", "path-json"}

func parse(s string, t int) call {
	return yes(func() { featselect.ParseCSV(strings.NewReader(s), t) })
}

func (e *env) dataset() *featselect.Dataset {
	var names []string
	for i := 0; i <= e.c.P; i++ {
		names = append(names, "n"+strconv.Itoa(i))
	}
	return &featselect.Dataset{X: mat.DenseCopyOf(e.X), Y: append([]float64{}, e.y...), Names: names, TargetCol: e.r.I(e.c.P + 1)}
}

func (e *env) csv() string {
	var b bytes.Buffer
	e.dataset().SaveHandle(&b)
	return b.String()
}

// outside is a number that is no feature.
func (e *env) outside() int {
	if e.r.I(3) == 0 {
		return -1 - e.r.I(3)
	}
	return e.c.P + e.r.I(70)
}

// content makes a JSON document of a node, a list or a dataset whose values have
// the right types but do not fit together.
func (e *env) content() (call, call) {
	n := featselect.NewNode(2, e.m)
	n.Score = 0.5
	h := featselect.NewHighscore(5)
	h.Insert(n)
	n2 := featselect.NewNode(1, []bool{true, false, true})
	n2.Score, n2.Lower, n2.Upper = -0.25, -1, 3
	h2 := featselect.NewHighscore(3)
	h2.Insert(n2)
	d2 := e.dataset()
	which := e.r.I(3)
	src := []json.Marshaler{n, h, e.dataset()}[which]
	dst := []json.Unmarshaler{n2, h2, d2}[which]
	e.watch = append(e.watch, n2, h2, d2)
	js, err := src.MarshalJSON()
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if err := json.Unmarshal(js, &m); err != nil {
		panic(err)
	}
	node := m
	if which == 1 {
		node = m["items"].([]any)[0].(map[string]any)
	}
	if which == 2 {
		list := []string{"X", "Y"}[e.r.I(2)]
		v := m[list].([]any)
		switch e.r.I(4) {
		case 0:
			m[list] = append(v, 1.5)
		case 1:
			m[list] = v[:len(v)-1]
		case 2:
			m["Nr"] = e.c.N + []int{-1, 1, -2 * e.c.N}[e.r.I(3)]
		default:
			m["Nc"] = e.c.P + []int{-1, 1, -2 * e.c.P}[e.r.I(3)]
		}
	} else if which == 1 && e.r.I(3) == 0 {
		m["items"] = append(m["items"].([]any), nil)
	} else if e.r.I(4) == 0 {
		node["totNumFeatures"] = smallestIdx(e.m) * (1 - 2*e.r.I(2))
	} else {
		node["selected"] = append(node["selected"].([]any), e.outside())
	}
	broken, _ := json.Marshal(m)
	good := func() bool {
		x := []json.Unmarshaler{&featselect.Node{}, &featselect.Highscore{}, &featselect.Dataset{}}[which]
		return x.UnmarshalJSON(js) == nil
	}
	return good, func() bool {
		if err := dst.UnmarshalJSON(broken); err != nil {
			panic(err)
		}
		return true
	}
}

// json breaks the JSON of a node, a list or a dataset: it is cut off, or a value
// has another type.
func (e *env) json(typ bool) (call, call) {
	n := featselect.NewNode(2, e.m)
	n.Score = 0.5
	h := featselect.NewHighscore(5)
	h.Insert(n)
	n2 := featselect.NewNode(1, []bool{true, false, true})
	n2.Score = -0.25
	h2 := featselect.NewHighscore(3)
	h2.Insert(n2)
	d := e.dataset()
	d2 := e.dataset()
	which := e.r.I(3)
	src := []json.Marshaler{n, h, d}[which]
	dst := []json.Unmarshaler{n2, h2, d2}[which]
	e.watch = append(e.watch, n2, h2, d2)
	js, err := src.MarshalJSON()
	if err != nil {
		panic(err)
	}
	broken := append([]byte{}, js[:e.r.I(len(js))]...)
	if typ {
		var m map[string]any
		if err := json.Unmarshal(js, &m); err != nil {
			panic(err)
		}
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		k := smallest(keys, e.r.I(len(keys)))
		m[k] = map[string]any{"a": "b"}
		broken, _ = json.Marshal(m)
	}
	good := func() bool {
		x := []json.Unmarshaler{&featselect.Node{}, &featselect.Highscore{}, &featselect.Dataset{}}[which]
		return x.UnmarshalJSON(js) == nil
	}
	return good, func() bool {
		if err := dst.UnmarshalJSON(broken); err != nil {
			panic(err)
		}
		return true
	}
}

// smallestIdx returns the first selected feature.
func smallestIdx(m []bool) int { return kit.IdxOf(m)[0] }

// smallest returns the k-th string in order.
func smallest(s []string, k int) string {
	s = append([]string{}, s...)
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	return s[k]
}

func abs(d int) int {
	if d < 0 {
		return -d
	}
	return d
}

// pos keeps a change that leaves the length different and at least one.
func pos(d, n int) int {
	if n+d < 1 {
		return abs(d)
	}
	return d
}

func gen(t *rapid.T) badCase {
	c := badCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 6, MaxN: 14, MinP: 3, MaxP: 6, Bias: -1, Shape: 1, MinNoise: 0.2, Kinds: []string{"gauss"}})}
	c.Kind = rapid.SampledFrom(kindNames).Draw(t, "kind")
	c.D = rapid.SampledFrom([]int{-3, -2, -1, -1, 1, 1, 2, 5}).Draw(t, "d")
	c.Seed = rapid.Uint64().Draw(t, "seed")
	return c
}

func genSparse(t *rapid.T) badCase {
	c := gen(t)
	c.Kind = "sparse-cov"
	return c
}

// calls that would never end
func genEndless(t *rapid.T) badCase {
	c := gen(t)
	c.Kind = rapid.SampledFrom([]string{"sa-sweeps", "sa-cost", "nested-keep"}).Draw(t, "endless")
	return c
}

func run(c badCase, o *kit.Obs) error {
	if kit.StdRef(c.Y) < 1e-3 {
		return kit.ErrSkip
	}
	for _, a := range c.Cols() {
		if kit.StdRef(a) < 1e-3 {
			return kit.ErrSkip
		}
	}
	if c.N+c.D < 1 || c.P+c.D < 1 || c.D == 0 {
		return kit.ErrSkip
	}
	dir, done, err := kit.Scratch()
	if err != nil {
		return kit.ErrSkip
	}
	defer done()
	e := &env{c: c, r: kit.NewRng(c.Seed), X: c.Dense(), y: c.Target(), dir: dir}
	e.m = make([]bool, c.P)
	for i := range e.m {
		e.m[i] = e.r.I(2) == 0
	}
	e.m[e.r.I(c.P)] = true
	for i := 0; i < c.P; i++ {
		e.coef = append(e.coef, e.r.N())
	}
	good, bad := kinds[c.Kind](e)
	if good != nil {
		if rejects(func() {
			if !good() {
				panic("not accepted")
			}
		}) {
			return fmt.Errorf("%s: consistent input is rejected", c.Kind)
		}
	}
	before := kit.Deep(e.watch...)
	model, coef := kit.ModelStr(e.m), kit.Deep(e.coef)
	if !rejects(func() { bad() }) {
		return fmt.Errorf("%s: inconsistent input is not rejected", c.Kind)
	}
	if !c.SameX(e.X) || !kit.SameSlice(e.y, c.Y) || kit.ModelStr(e.m) != model || kit.Deep(e.coef) != coef {
		return fmt.Errorf("%s: the rejected call changed its arguments", c.Kind)
	}
	if after := kit.Deep(e.watch...); after != before {
		return fmt.Errorf("%s: the rejected call changed %.300s to %.300s", c.Kind, before, after)
	}
	o.NonTrivial()
	o.Label("%s", c.Kind)
	return nil
}

// ---- the commands ----

type cliCase struct {
	kit.Prob
	Cmd    string `json:"cmd"`
	Kind   string `json:"kind"`
	Target int    `json:"target"`
	Style  int    `json:"style"`
	Old    bool   `json:"old"` // the output file exists
	Seed   uint64 `json:"seed"`
}

func (c cliCase) Smaller() []cliCase {
	var out []cliCase
	for _, q := range c.SmallerProbs(5) {
		d := c
		d.Prob = q
		out = append(out, d)
	}
	return out
}

var cliKinds = []string{"missing", "none", "ragged", "quote", "target", "header", "flag", "value", "cov", "output", "nan", "range"}

func genCLI(t *rapid.T) cliCase {
	c := cliCase{Prob: kit.GenProb(t, kit.ProbOpts{MinN: 8, MaxN: 14, MinP: 3, MaxP: 4, Bias: -1, Shape: 1, MinNoise: 0.2, Kinds: []string{"gauss"}})}
	c.Cmd = rapid.SampledFrom([]string{"bnb", "sasearch", "lasso", "lasso", "nestedlasso", "plotlasso"}).Draw(t, "cmd")
	c.Kind = rapid.SampledFrom(cliKinds).Draw(t, "kind")
	c.Target = rapid.IntRange(0, c.P).Draw(t, "target")
	c.Style = rapid.IntRange(0, 15).Draw(t, "style")
	c.Old = rapid.Bool().Draw(t, "old")
	c.Seed = rapid.Uint64().Draw(t, "seed")
	return c
}

func runCLI(c cliCase, o *kit.Obs) error {
	dir, done, err := kit.Scratch()
	if err != nil {
		return kit.ErrSkip
	}
	defer done()
	r := kit.NewRng(c.Seed)
	for i := 0; i < c.N; i++ {
		c.X[i*c.P] = 1
	}
	text := kit.CSVText(&c.Prob, kit.CLINames(c.P, c.Style), c.Target, c.Style&^8)
	in, out := filepath.Join(dir, "in.csv"), filepath.Join(dir, "out.json")
	target := c.Target
	var extra []string
	mustFail := true
	flat := c.Cmd == "nestedlasso" || c.Cmd == "plotlasso"
	switch c.Kind {
	case "missing":
		in = filepath.Join(dir, "other.csv")
	case "none":
		in = ""
		mustFail = c.Cmd != "lasso" // prints a message
	case "ragged":
		rows := strings.Split(strings.TrimRight(text, "\r\n"), "\n")
		k := 1 + r.I(len(rows)-1)
		rows[k] = "1," + rows[k]
		text = strings.Join(rows, "\n") + "\n"
	case "quote":
		k := strings.LastIndex(text, ",")
		text = text[:k+1] + "\"" + text[k+1:]
	case "target":
		target = c.P + 1 + r.I(3)
		if r.I(2) == 0 {
			target = -c.P - 2 - r.I(3)
		}
	case "header":
		text = text[:strings.Index(text, "\n")+1]
	case "flag":
		extra = append(extra, []string{"--nosuch=1", "--targett=2", "--outt"}[r.I(3)])
	case "value":
		extra = append(extra, []string{"--target=x", "--target=1.5", "--target="}[r.I(3)])
		if c.Cmd == "plotlasso" {
			extra = []string{"--coeffmin=x"}
		}
	case "output":
		// the input is fine, but the result can not be stored
		switch r.I(3) {
		case 0:
			out = filepath.Join(dir, "nosuch", "out.json")
		case 1:
			out = filepath.Join(dir, "folder")
			if os.Mkdir(out, 0700) != nil {
				return kit.ErrSkip
			}
		default:
			out = filepath.Join(dir, "full") // a link, so that only the link can be replaced
			if os.Symlink("/dev/full", out) != nil {
				return kit.ErrSkip
			}
			if _, err := os.Stat(out); err != nil {
				return kit.ErrSkip
			}
		}
		c.Old = false
		if c.Cmd == "lasso" && r.I(2) == 0 {
			extra = append(extra, "--type=cd", "--num=5", "--lmin=0.01")
		}
	case "nan":
		// a target that is not finite: no model has a criterion
		rows := strings.Split(strings.TrimRight(text, "\r\n"), "\n")
		k := 1 + r.I(len(rows)-1)
		cells := strings.Split(strings.TrimRight(rows[k], "\r"), ",")
		if len(cells) != c.P+1 {
			return kit.ErrSkip // an empty line
		}
		cells[c.Target] = []string{"NaN", "nan", "Inf", "-Inf", "+inf"}[r.I(5)]
		rows[k] = strings.Join(cells, ",")
		text = strings.Join(rows, "\n") + "\n"
		if c.Cmd == "plotlasso" {
			return kit.ErrSkip
		}
		if c.Cmd == "lasso" && r.I(2) == 0 {
			extra = append(extra, "--type=cd", "--num=5", "--lmin=0.01", "--cov="+[]string{"empirical", "identity"}[r.I(2)])
		}
	case "range":
		switch c.Cmd {
		case "lasso":
			extra = append(extra, "--type="+[]string{"foo", "", "LARS", "cdd", "lars,cd"}[r.I(5)])
		case "sasearch":
			extra = append(extra, []string{"--sweeps=0", "--sweeps=-3"}[r.I(2)])
		case "nestedlasso":
			extra = append(extra, []string{"--keep=1", "--keep=1.5"}[r.I(2)])
		default:
			return kit.ErrSkip
		}
	case "cov":
		if c.Cmd != "lasso" {
			return kit.ErrSkip
		}
		extra = append(extra, "--type=cd", "--num=3", "--cov="+[]string{"unknown", "", "Empirical", "sparse"}[r.I(4)])
		mustFail = false
	}
	if in != "" && c.Kind != "missing" {
		if err := ioutil.WriteFile(in, []byte(text), 0600); err != nil {
			return kit.ErrSkip
		}
	}
	old := []byte("the old result")
	if c.Old {
		ioutil.WriteFile(out, old, 0600)
	}
	var args []string
	bin := "goselect"
	switch {
	case c.Cmd == "plotlasso":
		// only its own input can be unusable here
		if c.Kind == "ragged" || c.Kind == "quote" || c.Kind == "target" || c.Kind == "header" || c.Kind == "value" && false {
			return kit.ErrSkip
		}
		bin = c.Cmd
		js := filepath.Join(dir, "none.json")
		args = []string{"-json", js, "-prefix", filepath.Join(dir, "fig")}
		if c.Kind == "output" {
			path := featselect.LassoLarsPath{Dset: &featselect.Dataset{X: c.Dense(), Y: c.Prob.Target(), TargetCol: c.P, Names: kit.CLINames(c.P, 0)}}
			path.LassoLarsNodes = []*featselect.LassoLarsNode{
				featselect.NewLassoLarsNode([]float64{1, 2}, 1, []int{0, 1}),
				featselect.NewLassoLarsNode([]float64{1, 2, 3}, 0.1, []int{0, 1, 2})}
			b, err := json.Marshal(path)
			if err != nil || ioutil.WriteFile(js, b, 0600) != nil {
				return kit.ErrSkip
			}
			args = []string{"-json", js, "-prefix", filepath.Join(dir, "nosuch", "fig")}
			if r.I(2) == 0 {
				args = []string{"-json", js, "-prefix", filepath.Join(dir, "fig"), "-ext", "unknown"}
			}
		}
	case flat:
		bin = c.Cmd
		args = []string{"-target=" + strconv.Itoa(target), "-out", out}
		if in != "" {
			args = append(args, "-csvfile", in)
		}
	default:
		args = []string{c.Cmd, "--target=" + strconv.Itoa(target), "--out", out}
		if in != "" {
			args = append(args, "--csv", in)
		}
	}
	args = append(args, extra...)
	text2, err := kit.RunBin(dir, bin, args...)
	if err != nil && strings.Contains(err.Error(), "signal: killed") {
		return fmt.Errorf("%v does not end", args)
	}
	if mustFail && err == nil {
		return fmt.Errorf("%v succeeds: %.300s", args, text2)
	}
	if !mustFail && len(strings.TrimSpace(text2)) == 0 {
		return fmt.Errorf("%v says nothing", args)
	}
	if c.Kind == "output" {
		if b, err := ioutil.ReadFile(in); c.Cmd != "plotlasso" && (err != nil || string(b) != text) {
			return fmt.Errorf("%v changes its input file", args)
		}
		o.NonTrivial()
		o.Label("%s %s", c.Cmd, c.Kind)
		return nil
	}
	b, rerr := ioutil.ReadFile(out)
	if c.Old && (rerr != nil || !bytes.Equal(b, old)) {
		return fmt.Errorf("%v replaces the old result by %.100q", args, b)
	}
	if !c.Old && !os.IsNotExist(rerr) {
		return fmt.Errorf("%v leaves an output file: %.100q", args, b)
	}
	if figs, _ := filepath.Glob(filepath.Join(dir, "fig*")); len(figs) > 0 {
		return fmt.Errorf("%v leaves the figures %v", args, figs)
	}
	if in != "" && c.Kind != "missing" {
		if b, err := ioutil.ReadFile(in); err != nil || string(b) != text {
			return fmt.Errorf("%v changes its input file", args)
		}
	}
	o.NonTrivial()
	o.Label("%s %s", c.Cmd, c.Kind)
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C32",
		Rule:        "api: one of 43 kinds of inconsistent input (lengths that differ by 1-5, empty or too long models, constant columns, unknown names, cut-off or wrongly typed JSON, ragged or unquoted CSV, targets out of range) next to the consistent call, which must be accepted. cli: one of 12 kinds of unusable input or options for the commands, with or without an older output file. All cases that are run are non-trivial.",
		Assumptions: []string{"a rejection is a panic or an error of the library, and a failing exit status (or a message, where the command has one) of a program"},
		Subs: []kit.Sub{kit.NewSub("api", 40000, 600000, gen, run), kit.NewSub("endless", 400, 6000, genEndless, run), kit.NewSub("sparse", 150, 2000, genSparse, run),
			kit.NewSub("cli", 700, 10000, genCLI, runCLI)}})
}
