// C11: normalisation is exact and is undone correctly.
package main

import (
	"fmt"
	"math"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type normCase struct {
	kit.Prob
	Bias  bool      `json:"bias"`
	BVal  float64   `json:"bval"`
	Const int       `json:"const"` // index of another constant column, 0: none
	Sel   []int     `json:"sel"`
	Coeff []float64 `json:"coeff"`
	Nodes int       `json:"nodes"`
}

func gen(t *rapid.T) normCase {
	n := kit.Upto(t, 2, 20, 400, "n")
	p := kit.Upto(t, 1, 7, 40, "p")
	c := normCase{Prob: kit.Prob{N: n, P: p}, Bias: rapid.Bool().Draw(t, "bias")}
	c.BVal = 1
	if rapid.IntRange(0, 4).Draw(t, "otherbias") == 0 {
		c.BVal = rapid.SampledFrom([]float64{0, 0.1, -3, 1e5}).Draw(t, "bval")
	}
	scale := rapid.SampledFrom([]float64{1, 1, 1e-3, 1e4, 1e-6}).Draw(t, "scale")
	off := rapid.SampledFrom([]float64{0, 1, -10, 300}).Draw(t, "off")
	if rapid.IntRange(0, 9).Draw(t, "far away") == 0 {
		off = rapid.SampledFrom([]float64{1e5, -1e8, 3e10, -2e11}).Draw(t, "far off")
	}
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	ints := rapid.IntRange(0, 3).Draw(t, "ints") == 0
	val := func() float64 {
		if ints {
			return float64(r.I(9)) + off
		}
		return scale * (r.N() + off)
	}
	c.X = make([]float64, n*p)
	for i := range c.X {
		c.X[i] = val()
	}
	if c.Bias {
		for i := 0; i < n; i++ {
			c.X[i*p] = c.BVal
		}
	}
	for i := 0; i < n; i++ {
		c.Y = append(c.Y, val())
	}
	if p > 1 && rapid.IntRange(0, 14).Draw(t, "bad") == 0 {
		c.Const = rapid.IntRange(1, p-1).Draw(t, "const")
		for i := 0; i < n; i++ {
			c.X[i*p+c.Const] = 2.5
		}
	}
	first := 0
	if c.Bias {
		first = 1
	}
	for j := first; j < p; j++ {
		if rapid.Bool().Draw(t, "use") {
			c.Sel = append(c.Sel, j)
			c.Coeff = append(c.Coeff, rapid.Float64Range(-5, 5).Draw(t, "coeff"))
		}
	}
	c.Nodes = rapid.IntRange(1, 3).Draw(t, "nodes")
	return c
}

func run(c normCase, o *kit.Obs) error {
	A := c.Cols()
	// domain: columns are constant or clearly not
	constCol := make([]bool, c.P)
	off := 0.0
	for j := range A {
		sd, mu := kit.StdRef(A[j]), kit.MeanRef(A[j])
		constCol[j] = sd < 1e-10
		if sd > 1e-12*(1+math.Abs(mu)) && sd < 1e-8 {
			return kit.ErrSkip
		}
		if !constCol[j] {
			off = math.Max(off, math.Abs(mu)/sd)
		}
	}
	sdy, muy := kit.StdRef(c.Y), kit.MeanRef(c.Y)
	if sdy < 1e-8 {
		return kit.ErrSkip
	}
	off = math.Max(off, math.Abs(muy)/sdy)
	if constCol[0] && len(c.Sel) > 0 && c.Sel[0] == 0 {
		return kit.ErrSkip // a bias column that came out of the integer data
	}
	wantPanic := false
	for j := 1; j < c.P; j++ {
		wantPanic = wantPanic || constCol[j]
	}
	X, y := c.Dense(), c.Target()
	var nd *featselect.NormalizedData
	panicked := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = true
			}
		}()
		nd = featselect.NewNormalizedData(X, y)
	}()
	if panicked != wantPanic {
		return fmt.Errorf("panic %v, constant columns %v", panicked, constCol)
	}
	if wantPanic {
		o.Label("constant column refused")
		return nil
	}
	if nd.HasBias != constCol[0] {
		return fmt.Errorf("HasBias is %v, first column constant: %v", nd.HasBias, constCol[0])
	}
	tol := 1e-11 * (1 + off) * float64(c.N)
	if !kit.GuardOK(X) {
		return fmt.Errorf("normalising changes the matrix around the given part")
	}
	if nd.X != X {
		return fmt.Errorf("the normalised matrix is not the caller's")
	}
	for j := 0; j < c.P; j++ {
		col := mat.Col(nil, j, X)
		if constCol[j] {
			for _, v := range col {
				if !(math.Abs(v) <= 1e-8) {
					return fmt.Errorf("constant column becomes %v", col)
				}
			}
			continue
		}
		sd, mu := kit.StdRef(A[j]), kit.MeanRef(A[j])
		for i, v := range col {
			if !(math.Abs(v-(A[j][i]-mu)/sd) <= tol) {
				return fmt.Errorf("entry (%d,%d) becomes %v, want %v", i, j, v, (A[j][i]-mu)/sd)
			}
		}
		if !(math.Abs(kit.MeanRef(col)) <= tol) || !(math.Abs(kit.StdRef(col)-1) <= tol) {
			return fmt.Errorf("column %d has mean %v and deviation %v", j, kit.MeanRef(col), kit.StdRef(col))
		}
	}
	for i, v := range y {
		if !(math.Abs(v-(c.Y[i]-muy)/sdy) <= tol) {
			return fmt.Errorf("target %d becomes %v, want %v", i, v, (c.Y[i]-muy)/sdy)
		}
	}

	// coefficients of the normalised problem mean the same on the original data
	want := make([]float64, c.N)
	mag := math.Abs(muy)
	for i := range want {
		s := 0.0
		for k, j := range c.Sel {
			s += c.Coeff[k] * (A[j][i] - kit.MeanRef(A[j])) / kit.StdRef(A[j])
		}
		want[i] = muy + sdy*s
	}
	for k, j := range c.Sel {
		mag += sdy * math.Abs(c.Coeff[k]) * (math.Abs(kit.MeanRef(A[j]))/kit.StdRef(A[j]) + 3)
	}
	ptol := 1e-10 * (1 + 1e-4*off) * (mag + sdy)
	sel, coeff := append([]int{}, c.Sel...), append([]float64{}, c.Coeff...)
	bias := nd.LinearTransformationBias(sel, coeff)
	for i := range want {
		s := bias
		for k, j := range c.Sel {
			s += nd.LinearNormalizationTransformation(j, c.Coeff[k]) * A[j][i]
		}
		if !(math.Abs(s-want[i]) <= ptol) {
			return fmt.Errorf("row %d: transformed coefficients predict %v, normalised ones %v", i, s, want[i])
		}
	}
	if !kit.SameInts(sel, c.Sel) || !kit.SameSlice(coeff, c.Coeff) {
		return fmt.Errorf("arguments were modified")
	}
	// a whole path: node k holds the first selected features only
	var path []*featselect.LassoLarsNode
	var sizes []int
	for k := 0; k < c.Nodes; k++ {
		m := len(c.Sel) * (k + 1) / c.Nodes
		sizes = append(sizes, m)
		path = append(path, featselect.NewLassoLarsNode(c.Coeff[:m], 1/float64(k+1), c.Sel[:m]))
	}
	featselect.Path2Unnormalized(nd, path)
	for k, nodeK := range path {
		m := sizes[k]
		wantSel := append([]int{}, c.Sel[:m]...)
		if nd.HasBias {
			wantSel = append([]int{0}, wantSel...)
		}
		if !kit.SameInts(nodeK.Selection, wantSel) || len(nodeK.Coeff) != len(wantSel) || nodeK.Lamb != 1/float64(k+1) {
			return fmt.Errorf("node %d has selection %v and %d coefficients at lambda %v, want %v", k, nodeK.Selection, len(nodeK.Coeff), nodeK.Lamb, wantSel)
		}
		intercept := 0.0
		feats := nodeK.Coeff
		b := muy
		for q := 0; q < m; q++ {
			j := c.Sel[q]
			b -= sdy * c.Coeff[q] * kit.MeanRef(A[j]) / kit.StdRef(A[j])
		}
		if nd.HasBias {
			intercept = nodeK.Coeff[0]
			feats = nodeK.Coeff[1:]
			if !(math.Abs(intercept-b) <= ptol) {
				return fmt.Errorf("node %d has intercept %v, want %v", k, intercept, b)
			}
		}
		for q := 0; q < m; q++ {
			w := c.Coeff[q] * sdy / kit.StdRef(A[c.Sel[q]])
			if !(math.Abs(feats[q]-w) <= 1e-10*(1+off)*math.Abs(w)) {
				return fmt.Errorf("node %d has coefficient %v for feature %d, want %v", k, feats[q], c.Sel[q], w)
			}
		}
	}
	if len(c.Sel) > 1 {
		o.NonTrivial()
	}
	if nd.HasBias {
		o.Label("bias")
	} else {
		o.Label("no bias")
	}
	return nil
}

type arrCase struct {
	R, C int
	Data []float64 `json:"data"`
}

func genArr(t *rapid.T) arrCase {
	c := arrCase{R: kit.Upto(t, 1, 8, 300, "r"), C: kit.Upto(t, 1, 8, 60, "c")}
	if !kit.IsLarge() && rapid.IntRange(0, 3).Draw(t, "thin") == 0 {
		if rapid.Bool().Draw(t, "one column") {
			c.C = 1
		} else {
			c.R = 1
		}
	}
	scale := rapid.SampledFrom([]float64{1, 1e-4, 1e5}).Draw(t, "scale")
	off := rapid.SampledFrom([]float64{0, 5, -100}).Draw(t, "off")
	r := kit.NewRng(rapid.Uint64().Draw(t, "data"))
	for i := 0; i < c.R*c.C; i++ {
		c.Data = append(c.Data, scale*(r.N()+off))
	}
	return c
}

func runArr(c arrCase, o *kit.Obs) error {
	at := func(i, j int) float64 { return c.Data[i*c.C+j] }
	row := func(i int) []float64 { return append([]float64{}, c.Data[i*c.C:(i+1)*c.C]...) }
	col := func(j int) []float64 {
		var v []float64
		for i := 0; i < c.R; i++ {
			v = append(v, at(i, j))
		}
		return v
	}
	tol := func(v []float64) float64 {
		return 1e-11 * (1 + math.Abs(kit.MeanRef(v))/math.Max(kit.StdRef(v), 1e-300)) * float64(len(v))
	}
	for i := 0; i < c.R; i++ {
		v := row(i)
		if m := featselect.Mean(v); !(math.Abs(m-kit.MeanRef(v)) <= 1e-12*(kit.MaxAbs(v)+1e-300)) {
			return fmt.Errorf("mean of %v is %v", v, m)
		}
		s := featselect.Std(v)
		if len(v) == 1 {
			if s != 0 {
				return fmt.Errorf("deviation of one value is %v", s)
			}
		} else if !(math.Abs(s-kit.StdRef(v)) <= 1e-10*kit.MaxAbs(v)) {
			return fmt.Errorf("deviation of %v is %v, want %v", v, s, kit.StdRef(v))
		}
		if !kit.SameSlice(v, row(i)) {
			return fmt.Errorf("Mean or Std modified its argument")
		}
		if c.C >= 2 {
			featselect.NormalizeArray(v)
			for k := range v {
				w := row(i)
				if !(math.Abs(v[k]-(w[k]-kit.MeanRef(w))/kit.StdRef(w)) <= tol(w)) {
					return fmt.Errorf("NormalizeArray(%v) is %v", w, v)
				}
			}
		}
	}
	if c.C >= 2 {
		X := (&kit.Prob{N: c.R, P: c.C, X: c.Data}).Dense()
		featselect.NormalizeRows(X)
		if !kit.GuardOK(X) {
			return fmt.Errorf("NormalizeRows changes the matrix around the given part")
		}
		for i := 0; i < c.R; i++ {
			w := row(i)
			for j := range w {
				if !(math.Abs(X.At(i, j)-(w[j]-kit.MeanRef(w))/kit.StdRef(w)) <= tol(w)) {
					return fmt.Errorf("NormalizeRows gives %v at (%d,%d)", X.At(i, j), i, j)
				}
			}
		}
	}
	if c.R >= 2 {
		X := (&kit.Prob{N: c.R, P: c.C, X: c.Data}).Dense()
		featselect.NormalizeCols(X)
		if !kit.GuardOK(X) {
			return fmt.Errorf("NormalizeCols changes the matrix around the given part")
		}
		for j := 0; j < c.C; j++ {
			w := col(j)
			for i := range w {
				if !(math.Abs(X.At(i, j)-(w[i]-kit.MeanRef(w))/kit.StdRef(w)) <= tol(w)) {
					return fmt.Errorf("NormalizeCols gives %v at (%d,%d)", X.At(i, j), i, j)
				}
			}
		}
	}
	if c.R >= 2 && c.C >= 2 && c.R != c.C {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C11",
		Rule: "dataset: 2-20 rows, 1-7 columns of scales 1e-6 to 1e4 with offsets up to 300 deviations, constant first or other columns, arbitrary sparse coefficients and paths (non-trivial: at least two coefficients). arrays: matrices up to 8x8 (non-trivial: not square, both dimensions above one).",
		Subs: []kit.Sub{
			kit.NewSub("dataset-again", 4000, 50000, gen, kit.Again(run)), kit.NewSub("dataset", 60000, 800000, gen, run),
			kit.NewSub("dataset-large", 2000, 10000, kit.Large(gen), run),
			kit.NewSub("arrays-large", 2000, 10000, kit.Large(genArr), runArr),
			kit.NewSub("arrays", 30000, 400000, genArr, runArr),
		}})
}
