// C24: array, view and column-order utilities match their definitions.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"

	"verif/kit"
)

type arrCase struct {
	F  []float64 `json:"f"`
	A  []int     `json:"a"`
	B  []int     `json:"b"`
	V  int       `json:"v"`
	Lo float64   `json:"lo"`
	Hi float64   `json:"hi"`
	N  int       `json:"n"`
	// Inf: 1 the largest values of F are +Inf, 2 the smallest -Inf, 3/4 all
	Inf int `json:"inf,omitempty"`
}

func genArr(t *rapid.T) arrCase {
	small := rapid.Bool().Draw(t, "small")
	f := rapid.Float64Range(-1e6, 1e6)
	if small {
		f = rapid.Custom(func(t *rapid.T) float64 { return float64(rapid.IntRange(-3, 3).Draw(t, "i")) })
	}
	in := rapid.IntRange(-4, 4)
	if !small {
		in = rapid.OneOf(rapid.IntRange(-10, 10), rapid.IntRange(-1000000, 1000000), rapid.Int())
	}
	nf, na := 20, 10
	if kit.IsLarge() {
		nf, na = 400, 200
	}
	c := arrCase{F: kit.List(t, f, 1, nf, "f"), A: kit.List(t, in, 0, na, "a"),
		B: kit.List(t, in, 0, na, "b"), V: in.Draw(t, "v"), N: kit.Upto(t, 0, 40, 1000, "n")}
	if rapid.IntRange(0, 2).Draw(t, "sameAB") == 0 {
		c.B = append([]int{}, c.A...)
		if len(c.B) > 0 && rapid.Bool().Draw(t, "tweak") {
			c.B[rapid.IntRange(0, len(c.B)-1).Draw(t, "where")]++
		}
	}
	c.Lo = math.Pow(10, rapid.Float64Range(-10, 4).Draw(t, "lo"))
	c.Hi = c.Lo * math.Pow(10, rapid.Float64Range(0, 12).Draw(t, "hi"))
	if rapid.IntRange(0, 7).Draw(t, "descending") == 0 {
		c.Lo, c.Hi = c.Hi, c.Lo
	}
	if rapid.IntRange(0, 4).Draw(t, "infinite") == 0 {
		c.Inf = rapid.IntRange(1, 4).Draw(t, "inf")
	}
	return c
}

func has(a []int, v int) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}

// infinite replaces values by infinities, which JSON cannot hold
func (c *arrCase) infinite() {
	hi, lo := c.F[0], c.F[0]
	for _, v := range c.F {
		hi, lo = math.Max(hi, v), math.Min(lo, v)
	}
	c.F = append([]float64{}, c.F...)
	for i, v := range c.F {
		switch {
		case c.Inf == 3, c.Inf == 1 && v == hi:
			c.F[i] = math.Inf(1)
		case c.Inf == 4, c.Inf == 2 && v == lo:
			c.F[i] = math.Inf(-1)
		}
	}
}

func runArr(c arrCase, o *kit.Obs) error {
	if c.Inf > 0 && len(c.F) > 0 {
		c.infinite()
		o.Label("infinite values")
	}
	f := append([]float64{}, c.F...)
	s := featselect.Argsort(f)
	if len(s) != len(f) {
		return fmt.Errorf("Argsort returns %d indices for %d values", len(s), len(f))
	}
	used := make([]bool, len(f))
	for i, k := range s {
		if k < 0 || k >= len(f) || used[k] {
			return fmt.Errorf("Argsort %v is not a permutation", s)
		}
		used[k] = true
		if i > 0 && c.F[s[i-1]] > c.F[k] {
			return fmt.Errorf("Argsort %v does not sort %v", s, c.F)
		}
	}
	amin, amax := 0, 0
	for i, v := range c.F {
		if v < c.F[amin] {
			amin = i
		}
		if v > c.F[amax] {
			amax = i
		}
	}
	if g := featselect.Argmin(f); g != amin {
		return fmt.Errorf("Argmin(%v) is %d", c.F, g)
	}
	if g := featselect.Argmax(f); g != amax {
		return fmt.Errorf("Argmax(%v) is %d", c.F, g)
	}
	if g := featselect.MinFloat(f); g != c.F[amin] {
		return fmt.Errorf("MinFloat(%v) is %v", c.F, g)
	}
	if !kit.SameSlice(f, c.F) {
		return fmt.Errorf("the values were modified")
	}
	ab := featselect.Abs(f)
	for i := range c.F {
		if ab[i] != math.Abs(c.F[i]) {
			return fmt.Errorf("Abs of %v is %v", c.F[i], ab[i])
		}
	}

	a, b := append([]int{}, c.A...), append([]int{}, c.B...)
	if len(c.F)%2 == 0 { // an empty list can also be nil
		a = append([]int(nil), c.A...)
	}
	if len(c.F)%3 == 0 {
		b = append([]int(nil), c.B...)
	}
	if len(a) > 0 {
		srt := append([]int{}, a...)
		sort.Ints(srt)
		if g := featselect.MaxInt(a); g != srt[len(srt)-1] {
			return fmt.Errorf("MaxInt(%v) is %d", a, g)
		}
		if g := featselect.MinInt(a); g != srt[0] {
			return fmt.Errorf("MinInt(%v) is %d", a, g)
		}
	}
	sum := 0
	all := true
	for _, v := range a {
		sum += v
		all = all && v == c.V
	}
	if g := featselect.Sum(a); g != sum {
		return fmt.Errorf("Sum(%v) is %d", a, g)
	}
	if g := featselect.All(a, c.V); g != all {
		return fmt.Errorf("All(%v, %d) is %v", a, c.V, g)
	}
	cst := make([]int, len(a))
	for i := range cst {
		cst[i] = c.V
	}
	if !featselect.All(cst, c.V) {
		return fmt.Errorf("All(%v, %d) is false", cst, c.V)
	}
	if g := featselect.ExistInt(a, c.V); g != has(a, c.V) {
		return fmt.Errorf("ExistInt(%v, %d) is %v", a, c.V, g)
	}
	if g := featselect.EqualInt(a, b); g != kit.SameInts(a, b) {
		return fmt.Errorf("EqualInt(%v, %v) is %v", a, b, g)
	}
	if !featselect.EqualInt(a, append([]int{}, a...)) {
		return fmt.Errorf("EqualInt(%v, copy) is false", a)
	}
	if !kit.SameInts(a, c.A) || !kit.SameInts(b, c.B) {
		return fmt.Errorf("the arguments were modified")
	}
	// the union keeps the first list and appends each new value once
	want := append([]int{}, c.A...)
	for _, v := range c.B {
		if !has(want, v) {
			want = append(want, v)
		}
	}
	if g := featselect.UnionInt(a, b); !kit.SameInts(g, want) {
		return fmt.Errorf("UnionInt(%v, %v) is %v", c.A, c.B, g)
	}
	if !kit.SameInts(b, c.B) {
		return fmt.Errorf("UnionInt modified its second argument")
	}

	l := featselect.Logspace(c.Lo, c.Hi, c.N)
	if len(l) != c.N {
		return fmt.Errorf("Logspace returns %d values, want %d", len(l), c.N)
	}
	for i := range l {
		w := c.Lo
		if c.N > 1 {
			w = math.Exp(math.Log(c.Lo) + (math.Log(c.Hi)-math.Log(c.Lo))*float64(i)/float64(c.N-1))
		}
		if !(math.Abs(l[i]-w) <= 1e-9*w) {
			return fmt.Errorf("Logspace(%v, %v, %d)[%d] is %v, want %v", c.Lo, c.Hi, c.N, i, l[i], w)
		}
		if i > 0 && (c.Hi >= c.Lo && l[i] < l[i-1]*(1-1e-12) || c.Hi < c.Lo && l[i] > l[i-1]*(1+1e-12)) {
			return fmt.Errorf("Logspace is not monotonous at %d", i)
		}
	}
	// Adding 2^n to a sum that is known by its logarithm
	cur, n := math.Mod(7*c.Lo, 60), c.N%61
	if got, w := featselect.NewLog2Pruned(cur, n), math.Log2(math.Exp2(cur)+math.Exp2(float64(n))); !(math.Abs(got-w) <= 1e-10*(1+w)) {
		return fmt.Errorf("NewLog2Pruned(%v, %d) is %v, want %v", cur, n, got, w)
	}
	if len(c.F) > 2 && len(c.A) > 1 {
		o.NonTrivial()
	}
	return nil
}

type viewCase struct {
	R, C int
	Idx  []int  `json:"idx"`
	Rows []int  `json:"rows"`
	Perm []int  `json:"perm"`
	Tail int    `json:"tail"`
	Seed uint64 `json:"seed"`
}

func genView(t *rapid.T) viewCase {
	c := viewCase{R: kit.Upto(t, 1, 7, 60, "r"), C: kit.Upto(t, 1, 8, 60, "c")}
	c.Idx = kit.List(t, rapid.IntRange(0, c.C-1), 1, c.C+8, "idx")
	c.Rows = kit.List(t, rapid.IntRange(0, c.R-1), 1, c.R+8, "rows")
	seq := make([]int, c.C)
	for i := range seq {
		seq[i] = i
	}
	k := rapid.IntRange(0, c.C).Draw(t, "k")
	c.Perm = rapid.Permutation(seq).Draw(t, "perm")[:k]
	c.Tail = rapid.IntRange(0, c.C-k).Draw(t, "tail")
	c.Seed = rapid.Uint64().Draw(t, "seed")
	return c
}

func equal(name string, got mat.Matrix, want *mat.Dense) error {
	r, c := got.Dims()
	wr, wc := want.Dims()
	if r != wr || c != wc {
		return fmt.Errorf("%s is %dx%d, want %dx%d", name, r, c, wr, wc)
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if got.At(i, j) != want.At(i, j) {
				return fmt.Errorf("%s(%d,%d) is %v, want %v", name, i, j, got.At(i, j), want.At(i, j))
			}
		}
	}
	return nil
}

func runView(c viewCase, o *kit.Obs) error {
	r := kit.NewRng(c.Seed)
	X := mat.NewDense(c.R, c.C, nil)
	for i := 0; i < c.R; i++ {
		for j := 0; j < c.C; j++ {
			X.Set(i, j, r.N())
		}
	}
	keep := mat.DenseCopyOf(X)
	if c.Seed>>11&1 == 1 && c.R*c.C > 0 {
		X = kit.Strided(c.R, c.C, append([]float64{}, keep.RawMatrix().Data...), r.I(3), r.I(3), r.I(2))
	}

	v := featselect.NewIndexedColView(X, c.Idx)
	want := mat.NewDense(c.R, len(c.Idx), nil)
	for i := 0; i < c.R; i++ {
		for j, k := range c.Idx {
			want.Set(i, j, keep.At(i, k))
		}
	}
	if err := equal("column view", &v, want); err != nil {
		return err
	}
	wantT := mat.DenseCopyOf(want.T())
	if err := equal("transposed column view", v.T(), wantT); err != nil {
		return err
	}
	// used as a factor it behaves as the matrix
	var p1, p2 mat.Dense
	p1.Mul(v.T(), &v)
	p2.Mul(want.T(), want)
	if !mat.EqualApprox(&p1, &p2, 1e-12) {
		return fmt.Errorf("product of column views is wrong")
	}

	base := mat.NewVecDense(c.R, nil)
	for i := 0; i < c.R; i++ {
		base.SetVec(i, r.N())
	}
	vv := featselect.NewIndexedColVecView(base, c.Rows)
	wv := mat.NewDense(len(c.Rows), 1, nil)
	for i, k := range c.Rows {
		wv.Set(i, 0, base.AtVec(k))
		if vv.AtVec(i) != base.AtVec(k) {
			return fmt.Errorf("vector view entry %d is %v", i, vv.AtVec(i))
		}
	}
	if vv.Len() != len(c.Rows) {
		return fmt.Errorf("vector view has length %d", vv.Len())
	}
	if err := equal("vector view", vv, wv); err != nil {
		return err
	}
	if err := equal("transposed vector view", vv.T(), mat.DenseCopyOf(wv.T())); err != nil {
		return err
	}

	data := make([]float64, c.C)
	for i := range data {
		data[i] = r.N()
	}
	sv := featselect.NewSliceVec(data)
	ws := mat.NewDense(len(data), 1, append([]float64{}, data...))
	if sv.Len() != len(data) {
		return fmt.Errorf("slice vector has length %d", sv.Len())
	}
	for i := range data {
		if sv.AtVec(i) != data[i] {
			return fmt.Errorf("slice vector entry %d is %v", i, sv.AtVec(i))
		}
	}
	if err := equal("slice vector", sv, ws); err != nil {
		return err
	}
	if err := equal("transposed slice vector", sv.T(), mat.DenseCopyOf(ws.T())); err != nil {
		return err
	}
	var q1, q2 mat.VecDense
	q1.MulVec(X, sv)
	q2.MulVec(X, mat.NewVecDense(len(data), append([]float64{}, data...)))
	if !mat.EqualApprox(&q1, &q2, 1e-12) {
		return fmt.Errorf("product with a slice vector is wrong")
	}
	// the slice vector is a view
	data[0] += 1
	if sv.AtVec(0) != data[0] {
		return fmt.Errorf("slice vector copies its data")
	}

	order := append([]int{}, c.Perm...)
	for i := 0; i < c.Tail; i++ {
		order = append(order, -1)
	}
	keepOrder := append([]int{}, order...)
	re := featselect.RearrangeDense(X, order)
	wr := mat.NewDense(c.R, c.C, nil)
	used := make([]bool, c.C)
	full := append([]int{}, c.Perm...)
	for _, k := range c.Perm {
		used[k] = true
	}
	for k := range used {
		if !used[k] {
			full = append(full, k)
		}
	}
	for j, k := range full {
		for i := 0; i < c.R; i++ {
			wr.Set(i, j, keep.At(i, k))
		}
	}
	if err := equal(fmt.Sprintf("rearranged matrix (order %v)", keepOrder), re, wr); err != nil {
		return err
	}
	if !kit.SameInts(order, keepOrder) {
		return fmt.Errorf("the order was modified")
	}
	re.Set(0, 0, 1e9)
	if !mat.Equal(X, keep) {
		return fmt.Errorf("the matrix was modified or is shared")
	}
	if len(c.Perm) > 1 && c.C > 2 {
		o.NonTrivial()
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C24",
		Rule: "arrays: slices with many ties or wide values (non-trivial: several values in both). views: matrices up to 7x8 with index lists and column orders (non-trivial: at least two of three or more columns reordered).",
		Subs: []kit.Sub{
			kit.NewSub("arrays", 240000, 800000, genArr, runArr),
			kit.NewSub("arrays-large", 9600, 10000, kit.Large(genArr), runArr),
			kit.NewSub("views-large", 9600, 10000, kit.Large(genView), runView),
			kit.NewSub("views", 160000, 500000, genView, runView),
		}})
}
